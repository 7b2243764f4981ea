//@include expr.inc
//@include config_use.inc
verus! {
//@rule method iter vx_iter
//@rule method to_string vx_to_string
//@rule eq_ops
//@rule opaque_fmt
//@rule method split vx_split
//@rule method split_once vx_split_once
//@rule method as_bytes vx_as_bytes
//@rule path InvalidPartitionPath CoreError::InvalidPartitionPath
//@rule path percent_encoding::percent_decode vx_percent_decode
//@rule path String::from vx_own
//@rule path Arc VArc
//@rule path HashMap VMap
//@prop C13
/// Arc: a shared value
pub struct VArc<T> { pub v: T }
impl<T> VArc<T> { pub fn new(v: T) -> (r: VArc<T>) ensures r.v == v { VArc { v } } }
impl VArc<Schema> { pub fn fields<'a>(&'a self) -> (r: &'a Vec<Field>) ensures r@ == self.v.fs() { self.v.fields() } }
impl Schema {
    #[verifier::external_body] pub fn fields<'a>(&'a self) -> (r: &'a Vec<Field>) ensures r@ == self.fs() { unimplemented!() }
    #[verifier::external_body] pub fn empty() -> (r: Schema) ensures r.fs() == Seq::<Field>::empty() { unimplemented!() }
}
impl Clone for Schema { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { s.vx_to_string() }
impl BooleanArray { #[verifier::external_body] pub fn value(&self, i: usize) -> (r: bool) requires i < self.bits().len() ensures self.bits()[i as int] is Some ==> r == self.bits()[i as int]->Some_0 { unimplemented!() } }
impl<T> VIter<T> {
    #[verifier::external_body] pub fn zip<I: VxIntoIterator>(self, o: I) -> (r: VIter<(T, I::Item)>)
        ensures r@.len() == (if self@.len() <= o.items().len() { self@.len() } else { o.items().len() }), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] #![trigger o.items()[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o.items()[i]) { unimplemented!() }
}
// ---- url decoding, by assumed contract ----
/// the text a percent-encoded text stands for; None when it is no UTF-8
pub uninterp spec fn url_dec(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn bytes_text(b: Seq<u8>) -> Seq<char>;
pub trait VxAsBytes { fn vx_as_bytes<'a>(&'a self) -> &'a [u8]; }
impl VxAsBytes for str { #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures bytes_text(r@) == self@ { self.as_bytes() } }
pub struct VPct { pub src: Ghost<Seq<char>> }
#[verifier::external_body] pub struct VCow { _p: () }
impl View for VCow { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VCow { #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_percent_decode(b: &[u8]) -> (r: VPct) ensures r.src@ == bytes_text(b@) { unimplemented!() }
impl VPct { #[verifier::external_body] pub fn decode_utf8(self) -> (r: core::result::Result<VCow, Utf8Err>) ensures match r { Ok(c) => url_dec(self.src@) == Some(c@), Err(_) => url_dec(self.src@) is None } { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Utf8Err> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Utf8Err) -> CoreError { CoreError::Utf8Error(e) } }
impl core::convert::From<Utf8Err> for CoreError { fn from(e: Utf8Err) -> CoreError { CoreError::Utf8Error(e) } }

// ---- is the table partitioned -------------------------------------------------------------------
pub open spec fn non_partitioned_keys(h: HudiConfigs) -> bool { cfg_try(h, HudiTableConfig::KeyGeneratorClass) matches Some(v) && v->String_0@ == "org.apache.hudi.keygen.NonpartitionedKeyGenerator"@ }
//@fn crates/core/src/table/partition.rs is_table_partitioned
@spec
    ensures ret == (partition_fields(*hudi_configs).len() > 0 && !non_partitioned_keys(*hudi_configs))
@closure 0
    |$1: HudiConfigValue| -> (r: bool) requires $1 is String ensures r == ($1->String_0@ == "org.apache.hudi.keygen.NonpartitionedKeyGenerator"@)
@start
    proof { broadcast use ax_default_fields; }
//@end

// ---- the pruner ------------------------------------------------------------------------------------
//@type crates/core/src/table/partition.rs PartitionPruner
/// what the pruner was made from
pub open spec fn pruner_of(fs: Seq<Filter>, s: Schema, h: HudiConfigs, p: PartitionPruner) -> bool {
    &&& p.and_filters@.len() == fs.len() && forall|i: int| #![trigger p.and_filters@[i]] #![trigger fs[i]] 0 <= i < fs.len() ==> bound(p.and_filters@[i], fs[i], s)
    &&& p.schema.v == s
    &&& p.is_hive_style == (cfg_try(h, HudiTableConfig::IsHiveStylePartitioning) == Some(HudiConfigValue::Boolean(true)))
    &&& p.is_url_encoded == (cfg_try(h, HudiTableConfig::IsPartitionPathUrlencoded) == Some(HudiConfigValue::Boolean(true)))
}
//@fn crates/core/src/table/partition.rs PartitionPruner::new
@spec
    ensures match ret { Ok(p) => pruner_of(and_filters@, *partition_schema, *hudi_configs, p), Err(_) => exists|i: int| 0 <= i < and_filters@.len() && unbindable(#[trigger] and_filters@[i], *partition_schema) }
@closure 0
    |$1: &Filter| -> (r: Result<SchemableFilter>) ensures match r { Ok(s) => bound(s, *$1, *partition_schema), Err(_) => unbindable(*$1, *partition_schema) }
@closure 1
    |$1: HudiConfigValue| -> (r: bool) requires $1 is Boolean ensures $1 == HudiConfigValue::Boolean(r)
@closure 2
    |$1: HudiConfigValue| -> (r: bool) requires $1 is Boolean ensures $1 == HudiConfigValue::Boolean(r)
//@end
//@fn crates/core/src/table/partition.rs PartitionPruner::empty
@rule path Vec::new Vec::new
@spec
    ensures ret.and_filters@.len() == 0
//@end
//@fn crates/core/src/table/partition.rs PartitionPruner::is_empty
@spec
    ensures ret == (self.and_filters@.len() == 0)
//@end

// ---- reading a partition path ------------------------------------------------------------------------
pub open spec fn all_dec(s: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < s.len() ==> url_dec(#[trigger] s[i]) is Some }
pub open spec fn decs(s: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| url_dec(s[i])->Some_0) }
/// the levels of a partition path: an encoded value may contain the separator, so levels are cut before decoding
pub open spec fn levels(p: PartitionPruner, path: Seq<char>) -> Option<Seq<Seq<char>>> {
    let raw = split_char(path, '/');
    if !p.is_url_encoded { Some(raw) }
    else if raw.len() == p.schema.v.fs().len() { if all_dec(raw) { Some(decs(raw)) } else { None } }
    else { match url_dec(path) { Some(d) => Some(split_char(d, '/')), None => None } }
}
pub open spec fn strs_are(v: Seq<String>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| #![trigger v[i]] #![trigger s[i]] 0 <= i < s.len() ==> v[i]@ == s[i] }
//@fn crates/core/src/table/partition.rs PartitionPruner::url_decode
@spec
    ensures match ret { Ok(t) => url_dec(s@) == Some(t@), Err(_) => url_dec(s@) is None }
//@end
//@fn crates/core/src/table/partition.rs PartitionPruner::split_path
@spec
    ensures match ret { Ok(v) => levels(*self, partition_path@) matches Some(l) && strs_are(v@, l), Err(_) => levels(*self, partition_path@) is None }
@closure 0
    |$1: &String| -> (r: Result<String>) ensures match r { Ok(t) => url_dec($1@) == Some(t@), Err(_) => url_dec($1@) is None }
//@end
/// the value a level gives for a field: after the name and '=' when hive-style
pub open spec fn level_value(p: PartitionPruner, f: Field, s: Seq<char>, v: Seq<char>) -> bool {
    if p.is_hive_style { is_split_once(s, seq!['='], f.nm(), v) } else { s == v }
}
/// the level's text, read as a value of the field's type
pub open spec fn gives(p: PartitionPruner, f: Field, s: Seq<char>, c: Cell) -> bool { exists|v: Seq<char>| #![trigger level_value(p, f, s, v)] #![trigger literal(v, f.ty())] level_value(p, f, s, v) && literal(v, f.ty()) == Some(c) }
/// c is the value of the k-th partition field that the path gives
pub open spec fn path_cell(p: PartitionPruner, path: Seq<char>, k: int, c: Cell) -> bool {
    let f = p.schema.v.fs()[k];
    gives(p, f, levels(p, path)->Some_0[k], c)
}
pub open spec fn has_cell(p: PartitionPruner, path: Seq<char>, k: int) -> bool { gives_some(p, p.schema.v.fs()[k], levels(p, path)->Some_0[k]) }
pub open spec fn gives_some(p: PartitionPruner, f: Field, s: Seq<char>) -> bool { exists|c: Cell| #[trigger] gives(p, f, s, c) }
pub open spec fn readable(p: PartitionPruner, path: Seq<char>) -> bool {
    levels(p, path) matches Some(l) && l.len() == p.schema.v.fs().len() && forall|k: int| #![trigger has_cell(p, path, k)] #![trigger l[k]] #![trigger p.schema.v.fs()[k]] 0 <= k < l.len() ==> has_cell(p, path, k)
}
pub open spec fn distinct_names(s: Seq<Field>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).nm() != (#[trigger] s[j]).nm() }
pub open spec fn seg_is(p: PartitionPruner, path: Seq<char>, k: int, s: Scalar<ArrayRef>) -> bool {
    s.inner.ty() == p.schema.v.fs()[k].ty() && s.inner.cells().len() == 1 && (s.inner.cells()[0] matches Some(c) && path_cell(p, path, k, c))
}
pub proof fn lemma_first_split_unique(s: Seq<char>, a: Seq<char>, b: Seq<char>, a2: Seq<char>, b2: Seq<char>)
    requires is_split_once(s, seq!['='], a, b), is_split_once(s, seq!['='], a2, b2)
    ensures a == a2, b == b2
{
    assert(!a.contains('=')) by { if a.contains('=') { let i = choose|i: int| 0 <= i < a.len() && a[i] == '='; assert(s.subrange(i, i + 1) =~= seq!['=']); assert(occurs_at(s, seq!['='], i)); } }
    assert(!a2.contains('=')) by { if a2.contains('=') { let i = choose|i: int| 0 <= i < a2.len() && a2[i] == '='; assert(s.subrange(i, i + 1) =~= seq!['=']); assert(occurs_at(s, seq!['='], i)); } }
    lemma_split_unique(a, b, a2, b2, '=');
}
pub proof fn lemma_level_value(p: PartitionPruner, f: Field, s: Seq<char>)
    ensures forall|v: Seq<char>, w: Seq<char>| #[trigger] level_value(p, f, s, v) && #[trigger] level_value(p, f, s, w) ==> v == w,
        forall|v: Seq<char>, a: Seq<char>, b: Seq<char>| p.is_hive_style && #[trigger] level_value(p, f, s, v) && #[trigger] is_split_once(s, seq!['='], a, b) ==> a == f.nm() && b == v,
        forall|v: Seq<char>| p.is_hive_style && #[trigger] level_value(p, f, s, v) ==> occurs(s, seq!['='])
{
    assert forall|v: Seq<char>, w: Seq<char>| #[trigger] level_value(p, f, s, v) && #[trigger] level_value(p, f, s, w) implies v == w by { if p.is_hive_style { lemma_first_split_unique(s, f.nm(), v, f.nm(), w); } }
    assert forall|v: Seq<char>, a: Seq<char>, b: Seq<char>| p.is_hive_style && #[trigger] level_value(p, f, s, v) && #[trigger] is_split_once(s, seq!['='], a, b) implies a == f.nm() && b == v by { lemma_first_split_unique(s, a, b, f.nm(), v); }
    assert forall|v: Seq<char>| p.is_hive_style && #[trigger] level_value(p, f, s, v) implies occurs(s, seq!['=']) by { let n = f.nm().len() as int; assert(s.subrange(n, n + 1) =~= seq!['=']); assert(occurs_at(s, seq!['='], n)); }
}
pub proof fn lemma_path_cell(p: PartitionPruner, path: Seq<char>, k: int, c: Cell, d: Cell)
    requires path_cell(p, path, k, c), path_cell(p, path, k, d)
    ensures c == d
{ lemma_level_value(p, p.schema.v.fs()[k], levels(p, path)->Some_0[k]); }
/// what the pruner reads off a path, by field name
pub open spec fn segments_of(p: PartitionPruner, path: Seq<char>, m: Map<Seq<char>, Scalar<ArrayRef>>) -> bool {
    &&& forall|k: int| 0 <= k < p.schema.v.fs().len() ==> m.dom().contains((#[trigger] p.schema.v.fs()[k]).nm())
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|k: int| 0 <= k < p.schema.v.fs().len() && (#[trigger] p.schema.v.fs()[k]).nm() == n && seg_is(p, path, k, m[n])
}
pub open spec fn seg_ok(p: PartitionPruner, f: Field, s: Seq<char>, r: Result<(String, Scalar<ArrayRef>)>) -> bool {
    match r {
        Ok((n, x)) => n@ == f.nm() && x.inner.ty() == f.ty() && x.inner.cells().len() == 1 && (x.inner.cells()[0] matches Some(c) && gives(p, f, s, c)),
        Err(_) => forall|c: Cell| !#[trigger] gives(p, f, s, c) }
}
//@fn crates/core/src/table/partition.rs PartitionPruner::parse_segments
@spec
    ensures match ret { Ok(m) => readable(*self, partition_path@) && segments_of(*self, partition_path@, m@), Err(_) => !readable(*self, partition_path@) }
@closure 0
    |$1: (&Field, String)| -> (r: Result<(String, Scalar<ArrayRef>)>) ensures seg_ok(*self, *$1.0, $1.1@, r)
@start
    let ghost path = partition_path@;
    proof {
        assert forall|f: Field, s: Seq<char>, r: Result<(String, Scalar<ArrayRef>)>| #![trigger seg_ok(*self, f, s, r)] (forall|v: Seq<char>, w: Seq<char>| #[trigger] level_value(*self, f, s, v) && #[trigger] level_value(*self, f, s, w) ==> v == w) && (forall|v: Seq<char>, a: Seq<char>, b: Seq<char>| self.is_hive_style && #[trigger] level_value(*self, f, s, v) && #[trigger] is_split_once(s, seq!['='], a, b) ==> a == f.nm() && b == v) && (forall|v: Seq<char>| self.is_hive_style && #[trigger] level_value(*self, f, s, v) ==> occurs(s, seq!['='])) by { lemma_level_value(*self, f, s); }
    }
//@end

// ---- the decision ---------------------------------------------------------------------------------------
pub open spec fn wf_filter(p: PartitionPruner, s: SchemableFilter) -> bool { s.value.inner.ty() == s.field.ty() && s.value.inner.cells().len() == 1 && s.value.inner.cells()[0] is Some && exists|k: int| 0 <= k < p.schema.v.fs().len() && #[trigger] p.schema.v.fs()[k] == s.field }
pub open spec fn wf(p: PartitionPruner) -> bool { distinct_names(p.schema.v.fs()) && forall|i: int| 0 <= i < p.and_filters@.len() ==> #[trigger] wf_filter(p, p.and_filters@[i]) }
/// every pruner made from filters is well-formed
pub proof fn lemma_made_wf(fs: Seq<Filter>, s: Schema, h: HudiConfigs, p: PartitionPruner)
    requires pruner_of(fs, s, h, p), distinct_names(s.fs())
    ensures wf(p)
{
    assert forall|i: int| 0 <= i < p.and_filters@.len() implies #[trigger] wf_filter(p, p.and_filters@[i]) by { assert(bound(p.and_filters@[i], fs[i], s)); }
}
/// the value the path gives for the filter's column does not satisfy the filter
pub open spec fn denies_at(p: PartitionPruner, path: Seq<char>, s: SchemableFilter, k: int, c: Cell) -> bool { p.schema.v.fs()[k].nm() == s.field.nm() && path_cell(p, path, k, c) && !accepts(s.operator, cell_order(c, s.value.inner.cells()[0]->Some_0)) }
pub open spec fn denies(p: PartitionPruner, path: Seq<char>, s: SchemableFilter) -> bool { exists|k: int, c: Cell| 0 <= k < p.schema.v.fs().len() && #[trigger] denies_at(p, path, s, k, c) }
pub open spec fn some_denies(p: PartitionPruner, path: Seq<char>) -> bool { exists|i: int| 0 <= i < p.and_filters@.len() && #[trigger] denies(p, path, p.and_filters@[i]) }
pub open spec fn none_denies(p: PartitionPruner, path: Seq<char>) -> bool { forall|i: int| 0 <= i < p.and_filters@.len() && comparable((#[trigger] p.and_filters@[i]).field.ty()) ==> !denies(p, path, p.and_filters@[i]) }
//@fn crates/core/src/table/partition.rs PartitionPruner::should_include
@spec
    requires wf(*self)
    ensures !readable(*self, partition_path@) ==> ret, !ret ==> some_denies(*self, partition_path@), ret && readable(*self, partition_path@) ==> none_denies(*self, partition_path@)
@closure 0
    |$1: &SchemableFilter| -> (r: bool) requires wf_filter(*self, *$1) ensures !r ==> denies(*self, partition_path@, *$1), r && comparable((*$1).field.ty()) ==> !denies(*self, partition_path@, *$1)
@start
    proof {
        assert forall|k: int, c: Cell, d: Cell| #[trigger] path_cell(*self, partition_path@, k, c) && #[trigger] path_cell(*self, partition_path@, k, d) implies c == d by { lemma_path_cell(*self, partition_path@, k, c, d); }
        assert forall|s: SchemableFilter, k: int, c: Cell| 0 <= k < self.schema.v.fs().len() && self.schema.v.fs()[k].nm() == s.field.nm() && #[trigger] path_cell(*self, partition_path@, k, c) && #[trigger] wf_filter(*self, s) implies denies_at(*self, partition_path@, s, k, c) == !accepts(s.operator, cell_order(c, s.value.inner.cells()[0]->Some_0)) by {}
    }
//@end
/// what a user sees: a partition is dropped only when the values its path gives satisfy not all of the filters written
pub proof fn never_drops_matching(fs: Seq<Filter>, s: Schema, h: HudiConfigs, p: PartitionPruner, path: Seq<char>)
    requires pruner_of(fs, s, h, p), distinct_names(s.fs()), some_denies(p, path)
    ensures exists|i: int, k: int, c: Cell| 0 <= i < fs.len() && 0 <= k < s.fs().len() && (#[trigger] fs[i]).field_name@ == s.fs()[k].nm() && #[trigger] path_cell(p, path, k, c)
        && (literal(fs[i].field_value@, s.fs()[k].ty()) matches Some(lit) && !accepts(fs[i].operator, cell_order(c, lit)))
{
    let i = choose|i: int| 0 <= i < p.and_filters@.len() && #[trigger] denies(p, path, p.and_filters@[i]);
    let (k, c) = choose|k: int, c: Cell| 0 <= k < p.schema.v.fs().len() && #[trigger] denies_at(p, path, p.and_filters@[i], k, c);
    assert(bound(p.and_filters@[i], fs[i], s));
    let j = choose|j: int| 0 <= j < s.fs().len() && #[trigger] s.fs()[j] == p.and_filters@[i].field && s.fs()[j].nm() == fs[i].field_name@;
    assert(j == k) by { if j != k { assert(s.fs()[j].nm() != s.fs()[k].nm()); } }
    assert(fs[i].field_name@ == s.fs()[k].nm() && path_cell(p, path, k, c));
}
}
