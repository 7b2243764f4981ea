//@include prelude.rs
//@include collections.rs
//@include error.rs
verus! {
//@rule method to_string vx_to_string
//@rule method to_owned vx_to_string
//@rule method iter vx_iter
//@rule method to_ascii_lowercase vx_to_ascii_lowercase
//@rule method split vx_split
//@rule path HashMap VMap
//@rule path crate::config::Result ConfigResult
//@rule path ConfigParser<Output=HudiConfigValue> VxParser
pub type ConfigResult<T, E = ConfigError> = core::result::Result<T, E>;

//@prop C17
// ---- what an option's text says ---------------------------------------------------------------
//@type crates/core/src/config/mod.rs HudiConfigValue
//@type crates/core/src/config/table.rs HudiTableConfig structural
//@type crates/core/src/config/read.rs HudiReadConfig structural
//@type crates/core/src/config/internal.rs HudiInternalConfig structural
//@type crates/core/src/config/table.rs TableTypeValue strum
//@type crates/core/src/config/table.rs BaseFileFormatValue strum
//@type crates/core/src/config/table.rs TimelineTimezoneValue strum
//@type crates/core/src/merge/mod.rs RecordMergeStrategyValue structural strum
impl VxFromStr for bool { type Err = ParseBoolError; open spec fn parsed(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } } }
pub uninterp spec fn parsed_isize(s: Seq<char>) -> Option<isize>;
pub uninterp spec fn parsed_usize(s: Seq<char>) -> Option<usize>;
impl VxFromStr for isize { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<isize> { parsed_isize(s) } }
impl VxFromStr for usize { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<usize> { parsed_usize(s) } }
/// `T::from_str` of the standard types
#[verifier::external_body] pub fn vx_bool_from_str(s: &str) -> (r: core::result::Result<bool, ParseBoolError>) ensures match r { Ok(v) => bool::parsed(s@) == Some(v), Err(_) => bool::parsed(s@) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_isize_from_str(s: &str) -> (r: core::result::Result<isize, ParseIntError>) ensures match r { Ok(v) => parsed_isize(s@) == Some(v), Err(_) => parsed_isize(s@) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_usize_from_str(s: &str) -> (r: core::result::Result<usize, ParseIntError>) ensures match r { Ok(v) => parsed_usize(s@) == Some(v), Err(_) => parsed_usize(s@) is None } { unimplemented!() }
pub struct VNonZeroUsize { pub v: usize }
impl VNonZeroUsize {
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: core::result::Result<VNonZeroUsize, ParseIntError>) ensures match r { Ok(v) => v.v != 0 && parsed_usize(s@) == Some(v.v), Err(_) => parsed_usize(s@) is None || parsed_usize(s@) == Some(0usize) } { unimplemented!() }
    pub fn get(self) -> (r: usize) ensures r == self.v { self.v }
}
pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E>> [core::result::Result::<T, E>::and_then] (r: core::result::Result<T, E>, f: F) -> (o: core::result::Result<U, E>)
    requires r matches Ok(x) ==> f.requires((x,)),
    ensures match r { Ok(x) => f.ensures((x,), o), Err(e) => o == Err::<U, E>(e) };
pub assume_specification<T, E, F: FnOnce(E) -> T> [core::result::Result::<T, E>::unwrap_or_else] (r: core::result::Result<T, E>, f: F) -> (o: T)
    requires r matches Err(e) ==> f.requires((e,)),
    ensures match r { Ok(x) => o == x, Err(e) => f.ensures((e,), o) };
/// the constructors of HudiConfigValue and str::to_string as function values
pub fn vx_boolean(v: bool) -> (r: HudiConfigValue) ensures r == HudiConfigValue::Boolean(v) { HudiConfigValue::Boolean(v) }
pub fn vx_integer(v: isize) -> (r: HudiConfigValue) ensures r == HudiConfigValue::Integer(v) { HudiConfigValue::Integer(v) }
pub fn vx_uinteger(v: usize) -> (r: HudiConfigValue) ensures r == HudiConfigValue::UInteger(v) { HudiConfigValue::UInteger(v) }
#[verifier::external_body] pub fn vx_str_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

pub uninterp spec fn disp_int(i: int) -> Seq<char>;
impl VxDisp for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
impl VxDisp for isize { open spec fn disp(&self) -> Seq<char> { disp_int(*self as int) } }
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { disp_int(*self as int) } }
/// how the text of an option is read
pub enum Kind { Bool, Int, UInt, Pos, Text, List, Format, Type, Zone, Merge }
pub open spec fn named(k: Kind, raw: Seq<char>) -> Option<Seq<char>> {
    let l = ascii_lower(raw);
    match k {
        Kind::Format => if l == "parquet"@ { Some("parquet"@) } else { None },
        Kind::Type => if l == "copy_on_write"@ || l == "copy-on-write"@ || l == "cow"@ { Some("COPY_ON_WRITE"@) } else if l == "merge_on_read"@ || l == "merge-on-read"@ || l == "mor"@ { Some("MERGE_ON_READ"@) } else { None },
        Kind::Zone => if l == "utc"@ { Some("utc"@) } else if l == "local"@ { Some("local"@) } else { None },
        Kind::Merge => if l == "append_only"@ { Some("append_only"@) } else if l == "overwrite_with_latest"@ { Some("overwrite_with_latest"@) } else { None },
        _ => None,
    }
}
pub open spec fn pieces(l: Seq<String>, raw: Seq<char>) -> bool { l.len() == split_char(raw, ',').len() && forall|i: int| #![trigger l[i]] #![trigger split_char(raw, ',')[i]] 0 <= i < l.len() ==> l[i]@ == split_char(raw, ',')[i] }
pub open spec fn says(k: Kind, raw: Seq<char>, v: HudiConfigValue) -> bool {
    match k {
        Kind::Bool => v matches HudiConfigValue::Boolean(b) && bool::parsed(raw) == Some(b),
        Kind::Int => v matches HudiConfigValue::Integer(i) && parsed_isize(raw) == Some(i),
        Kind::UInt => v matches HudiConfigValue::UInteger(i) && parsed_usize(raw) == Some(i),
        Kind::Pos => v matches HudiConfigValue::UInteger(i) && i != 0 && parsed_usize(raw) == Some(i),
        Kind::Text => v matches HudiConfigValue::String(s) && s@ == raw,
        Kind::List => v matches HudiConfigValue::List(l) && pieces(l@, raw),
        _ => v matches HudiConfigValue::String(s) && named(k, raw) == Some(s@),
    }
}
pub open spec fn good(k: Kind, raw: Seq<char>) -> bool {
    match k {
        Kind::Bool => bool::parsed(raw) is Some,
        Kind::Int => parsed_isize(raw) is Some,
        Kind::UInt => parsed_usize(raw) is Some,
        Kind::Pos => parsed_usize(raw) is Some && parsed_usize(raw) != Some(0usize),
        Kind::Text => true,
        Kind::List => true,
        _ => named(k, raw) is Some,
    }
}
/// the value an option has: Some exactly when it is set and well-formed
pub open spec fn outcome(name: Seq<char>, k: Kind, m: Map<Seq<char>, String>, r: ConfigResult<HudiConfigValue>) -> bool {
    match r { Ok(v) => m.dom().contains(name) && good(k, m[name]@) && says(k, m[name]@, v), Err(e) => !(m.dom().contains(name) && good(k, m[name]@)) && (e is NotFound <==> !m.dom().contains(name)) }
}
pub open spec fn well_set(name: Seq<char>, k: Kind, m: Map<Seq<char>, String>) -> bool { m.dom().contains(name) && good(k, m[name]@) }
pub open spec fn is_text(v: HudiConfigValue, s: Seq<char>) -> bool { v matches HudiConfigValue::String(t) && t@ == s }
pub open spec fn table_key(c: HudiTableConfig) -> Seq<char> { match c { HudiTableConfig::BaseFileFormat => "hoodie.table.base.file.format"@, HudiTableConfig::BasePath => "hoodie.base.path"@, HudiTableConfig::Checksum => "hoodie.table.checksum"@, HudiTableConfig::DatabaseName => "hoodie.database.name"@, HudiTableConfig::DropsPartitionFields => "hoodie.datasource.write.drop.partition.columns"@, HudiTableConfig::IsHiveStylePartitioning => "hoodie.datasource.write.hive_style_partitioning"@, HudiTableConfig::IsPartitionPathUrlencoded => "hoodie.datasource.write.partitionpath.urlencode"@, HudiTableConfig::KeyGeneratorClass => "hoodie.table.keygenerator.class"@, HudiTableConfig::PartitionFields => "hoodie.table.partition.fields"@, HudiTableConfig::PrecombineField => "hoodie.table.precombine.field"@, HudiTableConfig::PopulatesMetaFields => "hoodie.populate.meta.fields"@, HudiTableConfig::RecordKeyFields => "hoodie.table.recordkey.fields"@, HudiTableConfig::RecordMergeStrategy => "hoodie.table.record.merge.strategy"@, HudiTableConfig::TableName => "hoodie.table.name"@, HudiTableConfig::TableType => "hoodie.table.type"@, HudiTableConfig::TableVersion => "hoodie.table.version"@, HudiTableConfig::TimelineLayoutVersion => "hoodie.timeline.layout.version"@, HudiTableConfig::TimelineTimezone => "hoodie.table.timeline.timezone"@ } }
pub open spec fn table_kind(c: HudiTableConfig) -> Kind { match c { HudiTableConfig::BaseFileFormat => Kind::Format, HudiTableConfig::BasePath => Kind::Text, HudiTableConfig::Checksum => Kind::Int, HudiTableConfig::DatabaseName => Kind::Text, HudiTableConfig::DropsPartitionFields => Kind::Bool, HudiTableConfig::IsHiveStylePartitioning => Kind::Bool, HudiTableConfig::IsPartitionPathUrlencoded => Kind::Bool, HudiTableConfig::KeyGeneratorClass => Kind::Text, HudiTableConfig::PartitionFields => Kind::List, HudiTableConfig::PrecombineField => Kind::Text, HudiTableConfig::PopulatesMetaFields => Kind::Bool, HudiTableConfig::RecordKeyFields => Kind::List, HudiTableConfig::RecordMergeStrategy => Kind::Merge, HudiTableConfig::TableName => Kind::Text, HudiTableConfig::TableType => Kind::Type, HudiTableConfig::TableVersion => Kind::Int, HudiTableConfig::TimelineLayoutVersion => Kind::Int, HudiTableConfig::TimelineTimezone => Kind::Zone } }
pub open spec fn read_key(c: HudiReadConfig) -> Seq<char> { match c { HudiReadConfig::FileGroupStartTimestamp => "hoodie.read.file_group.start_timestamp"@, HudiReadConfig::FileGroupEndTimestamp => "hoodie.read.file_group.end_timestamp"@, HudiReadConfig::InputPartitions => "hoodie.read.input.partitions"@, HudiReadConfig::ListingParallelism => "hoodie.read.listing.parallelism"@, HudiReadConfig::UseReadOptimizedMode => "hoodie.read.use.read_optimized.mode"@ } }
pub open spec fn read_kind(c: HudiReadConfig) -> Kind { match c { HudiReadConfig::FileGroupStartTimestamp => Kind::Text, HudiReadConfig::FileGroupEndTimestamp => Kind::Text, HudiReadConfig::InputPartitions => Kind::UInt, HudiReadConfig::ListingParallelism => Kind::Pos, HudiReadConfig::UseReadOptimizedMode => Kind::Bool } }
pub open spec fn internal_key(c: HudiInternalConfig) -> Seq<char> { match c { HudiInternalConfig::SkipConfigValidation => "hoodie.internal.skip.config.validation"@ } }
pub open spec fn internal_kind(c: HudiInternalConfig) -> Kind { match c { HudiInternalConfig::SkipConfigValidation => Kind::Bool } }
/// the documented default
pub open spec fn table_default(c: HudiTableConfig, v: Option<HudiConfigValue>) -> bool {
    match c {
        HudiTableConfig::BaseFileFormat => v is Some && is_text(v->Some_0, "parquet"@),
        HudiTableConfig::DatabaseName => v is Some && is_text(v->Some_0, "default"@),
        HudiTableConfig::DropsPartitionFields => v == Some(HudiConfigValue::Boolean(false)),
        HudiTableConfig::PartitionFields => v matches Some(HudiConfigValue::List(l)) && l@.len() == 0,
        HudiTableConfig::PopulatesMetaFields => v == Some(HudiConfigValue::Boolean(true)),
        HudiTableConfig::TimelineTimezone => v is Some && is_text(v->Some_0, "utc"@),
        _ => v is None,
    }
}
pub open spec fn read_default(c: HudiReadConfig, v: Option<HudiConfigValue>) -> bool {
    match c {
        HudiReadConfig::InputPartitions => v == Some(HudiConfigValue::UInteger(0)),
        HudiReadConfig::ListingParallelism => v == Some(HudiConfigValue::UInteger(10)),
        HudiReadConfig::UseReadOptimizedMode => v == Some(HudiConfigValue::Boolean(false)),
        _ => v is None,
    }
}

//@fn crates/core/src/config/table.rs FromStr for TableTypeValue::from_str
@spec
    ensures match ret { Ok(v) => named(Kind::Type, s@) == Some(name_TableTypeValue(v)), Err(e) => named(Kind::Type, s@) is None && !(e is NotFound) }
//@end
//@fn crates/core/src/config/table.rs FromStr for BaseFileFormatValue::from_str
@spec
    ensures match ret { Ok(v) => named(Kind::Format, s@) == Some(name_BaseFileFormatValue(v)), Err(e) => named(Kind::Format, s@) is None && !(e is NotFound) }
@start
    proof { reveal_strlit("parquet"); reveal_strlit("orc"); assert("parquet"@.len() == 7 && "orc"@.len() == 3); }
//@end
//@fn crates/core/src/config/table.rs FromStr for TimelineTimezoneValue::from_str
@spec
    ensures match ret { Ok(v) => named(Kind::Zone, s@) == Some(name_TimelineTimezoneValue(v)), Err(e) => named(Kind::Zone, s@) is None && !(e is NotFound) }
//@end
//@fn crates/core/src/merge/mod.rs FromStr for RecordMergeStrategyValue::from_str
@rule path error::Result ConfigResult
@spec
    ensures match ret { Ok(v) => named(Kind::Merge, s@) == Some(name_RecordMergeStrategyValue(v)), Err(e) => named(Kind::Merge, s@) is None && !(e is NotFound) }
//@end
//@fn crates/core/src/config/table.rs AsRef<str> for HudiTableConfig::as_ref
@spec
    ensures ret@ == table_key(*self)
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::key
@header impl HudiTableConfig
@spec
    ensures ret@ == table_key(*self)
//@end
//@fn crates/core/src/config/table.rs ConfigParser for HudiTableConfig::default_value
@rule path Self::Output HudiConfigValue
@spec
    ensures table_default(*self, ret)
//@end
//@fn crates/core/src/config/table.rs ConfigParser for HudiTableConfig::is_required
@spec
    ensures ret == (*self == HudiTableConfig::TableName || *self == HudiTableConfig::TableType || *self == HudiTableConfig::TableVersion)
//@end
//@fn crates/core/src/config/table.rs ConfigParser for HudiTableConfig::parse_value
@rule method into_iter vx_into_iter
@rule path bool::from_str vx_bool_from_str
@rule path isize::from_str vx_isize_from_str
@rule path usize::from_str vx_usize_from_str
@rule path NonZeroUsize VNonZeroUsize
@rule path HudiConfigValue::Boolean vx_boolean
@rule path HudiConfigValue::Integer vx_integer
@rule path HudiConfigValue::UInteger vx_uinteger
@rule path str::to_string vx_str_to_string
@rule path Self::Output HudiConfigValue
@rule path Result ConfigResult
@spec
    ensures outcome(table_key(*self), table_kind(*self), configs@, ret)
@closure 0
    |v: &String| -> (o: &str) ensures o@ == v@
@closure 1
    |v: BaseFileFormatValue| -> (o: HudiConfigValue) ensures is_text(o, name_BaseFileFormatValue(v))
@closure 2
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 3
    |v: &str| -> (o: ConfigResult<isize>) ensures match o { Ok(b) => parsed_isize(v@) == Some(b), Err(e) => parsed_isize(v@) is None && !(e is NotFound) }
@closure 4
    |e: ParseIntError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 5
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 6
    |v: &str| -> (o: ConfigResult<bool>) ensures match o { Ok(b) => bool::parsed(v@) == Some(b), Err(e) => bool::parsed(v@) is None && !(e is NotFound) }
@closure 7
    |e: ParseBoolError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 8
    |v: &str| -> (o: ConfigResult<bool>) ensures match o { Ok(b) => bool::parsed(v@) == Some(b), Err(e) => bool::parsed(v@) is None && !(e is NotFound) }
@closure 9
    |e: ParseBoolError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 10
    |v: &str| -> (o: ConfigResult<bool>) ensures match o { Ok(b) => bool::parsed(v@) == Some(b), Err(e) => bool::parsed(v@) is None && !(e is NotFound) }
@closure 11
    |e: ParseBoolError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 12
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 13
    |v: &str| -> (o: HudiConfigValue) ensures o matches HudiConfigValue::List(l) && pieces(l@, v@)
@closure 14
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 15
    |v: &str| -> (o: ConfigResult<bool>) ensures match o { Ok(b) => bool::parsed(v@) == Some(b), Err(e) => bool::parsed(v@) is None && !(e is NotFound) }
@closure 16
    |e: ParseBoolError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 17
    |v: &str| -> (o: HudiConfigValue) ensures o matches HudiConfigValue::List(l) && pieces(l@, v@)
@closure 18
    |v: RecordMergeStrategyValue| -> (o: HudiConfigValue) ensures is_text(o, name_RecordMergeStrategyValue(v))
@closure 19
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 20
    |v: TableTypeValue| -> (o: HudiConfigValue) ensures is_text(o, name_TableTypeValue(v))
@closure 21
    |v: &str| -> (o: ConfigResult<isize>) ensures match o { Ok(b) => parsed_isize(v@) == Some(b), Err(e) => parsed_isize(v@) is None && !(e is NotFound) }
@closure 22
    |e: ParseIntError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 23
    |v: &str| -> (o: ConfigResult<isize>) ensures match o { Ok(b) => parsed_isize(v@) == Some(b), Err(e) => parsed_isize(v@) is None && !(e is NotFound) }
@closure 24
    |e: ParseIntError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 25
    |v: TimelineTimezoneValue| -> (o: HudiConfigValue) ensures is_text(o, name_TimelineTimezoneValue(v))
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::validate
@header impl HudiTableConfig
@rule path Result ConfigResult
@spec
    ensures ret is Ok <==> (if configs@.dom().contains(table_key(*self)) { good(table_kind(*self), configs@[table_key(*self)]@) } else { !(*self == HudiTableConfig::TableName || *self == HudiTableConfig::TableType || *self == HudiTableConfig::TableVersion) })
//@end
//@fn crates/core/src/config/read.rs AsRef<str> for HudiReadConfig::as_ref
@spec
    ensures ret@ == read_key(*self)
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::key
@header impl HudiReadConfig
@spec
    ensures ret@ == read_key(*self)
//@end
//@fn crates/core/src/config/read.rs ConfigParser for HudiReadConfig::default_value
@rule path Self::Output HudiConfigValue
@spec
    ensures read_default(*self, ret)
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::is_required
@header impl HudiReadConfig
@spec
    ensures !ret
//@end
//@fn crates/core/src/config/read.rs ConfigParser for HudiReadConfig::parse_value
@rule method into_iter vx_into_iter
@rule path bool::from_str vx_bool_from_str
@rule path isize::from_str vx_isize_from_str
@rule path usize::from_str vx_usize_from_str
@rule path NonZeroUsize VNonZeroUsize
@rule path HudiConfigValue::Boolean vx_boolean
@rule path HudiConfigValue::Integer vx_integer
@rule path HudiConfigValue::UInteger vx_uinteger
@rule path str::to_string vx_str_to_string
@rule path Self::Output HudiConfigValue
@rule path Result ConfigResult
@spec
    ensures outcome(read_key(*self), read_kind(*self), configs@, ret)
@closure 0
    |v: &String| -> (o: &str) ensures o@ == v@
@closure 1
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 2
    |v: &str| -> (o: HudiConfigValue) ensures is_text(o, v@)
@closure 3
    |v: &str| -> (o: ConfigResult<usize>) ensures match o { Ok(b) => parsed_usize(v@) == Some(b), Err(e) => parsed_usize(v@) is None && !(e is NotFound) }
@closure 4
    |e: ParseIntError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 5
    |v: &str| -> (o: ConfigResult<VNonZeroUsize>) ensures match o { Ok(b) => b.v != 0 && parsed_usize(v@) == Some(b.v), Err(e) => (parsed_usize(v@) is None || parsed_usize(v@) == Some(0usize)) && !(e is NotFound) }
@closure 6
    |e: ParseIntError| -> (o: ConfigError) ensures !(o is NotFound)
@closure 7
    |v: &str| -> (o: ConfigResult<bool>) ensures match o { Ok(b) => bool::parsed(v@) == Some(b), Err(e) => bool::parsed(v@) is None && !(e is NotFound) }
@closure 8
    |e: ParseBoolError| -> (o: ConfigError) ensures !(o is NotFound)
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::validate
@header impl HudiReadConfig
@rule path Result ConfigResult
@spec
    ensures ret is Ok <==> (if configs@.dom().contains(read_key(*self)) { good(read_kind(*self), configs@[read_key(*self)]@) } else { !false })
//@end
//@fn crates/core/src/config/internal.rs AsRef<str> for HudiInternalConfig::as_ref
@spec
    ensures ret@ == internal_key(*self)
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::key
@header impl HudiInternalConfig
@spec
    ensures ret@ == internal_key(*self)
//@end
//@fn crates/core/src/config/internal.rs ConfigParser for HudiInternalConfig::default_value
@rule path Self::Output HudiConfigValue
@spec
    ensures ret == Some(HudiConfigValue::Boolean(false))
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::is_required
@header impl HudiInternalConfig
@spec
    ensures !ret
//@end
//@fn crates/core/src/config/internal.rs ConfigParser for HudiInternalConfig::parse_value
@rule method into_iter vx_into_iter
@rule path bool::from_str vx_bool_from_str
@rule path isize::from_str vx_isize_from_str
@rule path usize::from_str vx_usize_from_str
@rule path HudiConfigValue::Boolean vx_boolean
@rule path HudiConfigValue::Integer vx_integer
@rule path HudiConfigValue::UInteger vx_uinteger
@rule path str::to_string vx_str_to_string
@rule path Self::Output HudiConfigValue
@rule path Result ConfigResult
@spec
    ensures outcome(internal_key(*self), internal_kind(*self), configs@, ret)
@closure 0
    |v: &String| -> (o: &str) ensures o@ == v@
@closure 1
    |v: &str| -> (o: ConfigResult<bool>) ensures match o { Ok(b) => bool::parsed(v@) == Some(b), Err(e) => bool::parsed(v@) is None && !(e is NotFound) }
@closure 2
    |e: ParseBoolError| -> (o: ConfigError) ensures !(o is NotFound)
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::validate
@header impl HudiInternalConfig
@rule path Result ConfigResult
@spec
    ensures ret is Ok <==> (if configs@.dom().contains(internal_key(*self)) { good(internal_kind(*self), configs@[internal_key(*self)]@) } else { !false })
//@end

// ---- values -----------------------------------------------------------------------------------
//@fn crates/core/src/config/mod.rs From<HudiConfigValue> for bool::from
@header impl HudiConfigValue
@name vx_into_bool
@rule path Self bool
@spec
    requires value is Boolean
    ensures value == HudiConfigValue::Boolean(ret)
//@end
//@fn crates/core/src/config/mod.rs From<HudiConfigValue> for isize::from
@header impl HudiConfigValue
@name vx_into_isize
@rule path Self isize
@spec
    requires value is Integer
    ensures value == HudiConfigValue::Integer(ret)
//@end
//@fn crates/core/src/config/mod.rs From<HudiConfigValue> for usize::from
@header impl HudiConfigValue
@name vx_into_usize
@rule path Self usize
@spec
    requires value is UInteger
    ensures value == HudiConfigValue::UInteger(ret)
//@end
//@fn crates/core/src/config/mod.rs From<HudiConfigValue> for String::from
@header impl HudiConfigValue
@name vx_into_string
@rule path Self String
@spec
    requires !(value is List)
    ensures value is String ==> value == HudiConfigValue::String(ret)
//@end
//@fn crates/core/src/config/mod.rs From<HudiConfigValue> for Vec::from
@header impl HudiConfigValue
@name vx_into_list
@rule path Self Vec<String>
@spec
    requires value is List
    ensures value == HudiConfigValue::List(ret)
//@end
/// `HudiConfigValue::to::<T>()`: T::from, above
pub trait VxCfgTo: Sized { spec fn can(v: HudiConfigValue) -> bool; spec fn is(v: HudiConfigValue, r: Self) -> bool; fn vx_from(v: HudiConfigValue) -> (r: Self) requires Self::can(v) ensures Self::is(v, r); }
impl VxCfgTo for bool { open spec fn can(v: HudiConfigValue) -> bool { v is Boolean } open spec fn is(v: HudiConfigValue, r: bool) -> bool { v == HudiConfigValue::Boolean(r) } fn vx_from(v: HudiConfigValue) -> (r: bool) { HudiConfigValue::vx_into_bool(v) } }
impl VxCfgTo for isize { open spec fn can(v: HudiConfigValue) -> bool { v is Integer } open spec fn is(v: HudiConfigValue, r: isize) -> bool { v == HudiConfigValue::Integer(r) } fn vx_from(v: HudiConfigValue) -> (r: isize) { HudiConfigValue::vx_into_isize(v) } }
impl VxCfgTo for usize { open spec fn can(v: HudiConfigValue) -> bool { v is UInteger } open spec fn is(v: HudiConfigValue, r: usize) -> bool { v == HudiConfigValue::UInteger(r) } fn vx_from(v: HudiConfigValue) -> (r: usize) { HudiConfigValue::vx_into_usize(v) } }
impl VxCfgTo for String { open spec fn can(v: HudiConfigValue) -> bool { v is String } open spec fn is(v: HudiConfigValue, r: String) -> bool { v == HudiConfigValue::String(r) } fn vx_from(v: HudiConfigValue) -> (r: String) { HudiConfigValue::vx_into_string(v) } }
impl VxCfgTo for Vec<String> { open spec fn can(v: HudiConfigValue) -> bool { v is List } open spec fn is(v: HudiConfigValue, r: Vec<String>) -> bool { v == HudiConfigValue::List(r) } fn vx_from(v: HudiConfigValue) -> (r: Vec<String>) { HudiConfigValue::vx_into_list(v) } }
//@fn crates/core/src/config/mod.rs HudiConfigValue::to
@rule path T::from T::vx_from
@rule path From<HudiConfigValue> VxCfgTo
@rule path std::fmt::Debug core::fmt::Debug
@spec
    requires T::can(self)
    ensures T::is(self, ret)
//@end

// ---- option or default ------------------------------------------------------------------------
/// the merge strategy of a table that names none
pub open spec fn merge_default(m: Map<Seq<char>, String>) -> Seq<char> {
    let pop = table_key(HudiTableConfig::PopulatesMetaFields);
    if well_set(pop, Kind::Bool, m) && bool::parsed(m[pop]@) == Some(false) { "append_only"@ }
    else if !m.dom().contains(table_key(HudiTableConfig::PrecombineField)) { "append_only"@ } else { "overwrite_with_latest"@ }
}
pub open spec fn table_value(c: HudiTableConfig, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool {
    if well_set(table_key(c), table_kind(c), m) { says(table_kind(c), m[table_key(c)]@, v) }
    else if c == HudiTableConfig::RecordMergeStrategy { is_text(v, merge_default(m)) }
    else { table_default(c, Some(v)) }
}
//@fn crates/core/src/config/table.rs ConfigParser for HudiTableConfig::parse_value_or_default
@rule path Self::Output HudiConfigValue
@spec
    requires *self == HudiTableConfig::RecordMergeStrategy || well_set(table_key(*self), table_kind(*self), configs@) || !table_default(*self, None)
    ensures table_value(*self, configs@, ret)
    decreases (if *self == HudiTableConfig::RecordMergeStrategy { 1int } else { 0int })
@closures 2
@closure 0
    |e: ConfigError| -> (o: HudiConfigValue) requires *self == HudiTableConfig::RecordMergeStrategy || !table_default(*self, None) ensures if *self == HudiTableConfig::RecordMergeStrategy { is_text(o, merge_default(configs@)) } else { table_default(*self, Some(o)) }
@closure 1
    || -> (o: HudiConfigValue) requires false
//@end

pub open spec fn read_value(c: HudiReadConfig, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool { if well_set(read_key(c), read_kind(c), m) { says(read_kind(c), m[read_key(c)]@, v) } else { read_default(c, Some(v)) } }
pub open spec fn internal_value(c: HudiInternalConfig, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool { if well_set(internal_key(c), internal_kind(c), m) { says(internal_kind(c), m[internal_key(c)]@, v) } else { v == HudiConfigValue::Boolean(false) } }
//@fn crates/core/src/config/mod.rs trait ConfigParser::parse_value_or_default
@header impl HudiReadConfig
@rule path Self::Output HudiConfigValue
@spec
    requires well_set(read_key(*self), read_kind(*self), configs@) || !read_default(*self, None)
    ensures read_value(*self, configs@, ret)
@closures 2
@closure 0
    |e: ConfigError| -> (o: HudiConfigValue) requires !read_default(*self, None) ensures read_default(*self, Some(o))
@closure 1
    || -> (o: HudiConfigValue) requires false
//@end
//@fn crates/core/src/config/mod.rs trait ConfigParser::parse_value_or_default
@header impl HudiInternalConfig
@rule path Self::Output HudiConfigValue
@spec
    ensures internal_value(*self, configs@, ret)
@closures 2
@closure 0
    |e: ConfigError| -> (o: HudiConfigValue) ensures o == HudiConfigValue::Boolean(false)
@closure 1
    || -> (o: HudiConfigValue) requires false
//@end
/// the option enums behind `impl ConfigParser`: each method is the one verified above
pub trait VxParser: Sized {
    spec fn nm(&self) -> Seq<char>;
    spec fn kd(&self) -> Kind;
    spec fn df(&self, v: Option<HudiConfigValue>) -> bool;
    spec fn has_value(&self, m: Map<Seq<char>, String>) -> bool;
    spec fn value(&self, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool;
    spec fn required(&self) -> bool;
    fn parse_value(&self, c: &VMap<String, String>) -> (r: ConfigResult<HudiConfigValue>) ensures outcome(self.nm(), self.kd(), c@, r);
    fn default_value(&self) -> (r: Option<HudiConfigValue>) ensures self.df(r);
    fn parse_value_or_default(&self, c: &VMap<String, String>) -> (r: HudiConfigValue) requires self.has_value(c@) ensures self.value(c@, r);
    fn validate(&self, c: &VMap<String, String>) -> (r: ConfigResult<()>) ensures r is Ok <==> (if c@.dom().contains(self.nm()) { good(self.kd(), c@[self.nm()]@) } else { !self.required() });
}
impl VxParser for HudiTableConfig {
    open spec fn nm(&self) -> Seq<char> { table_key(*self) }
    open spec fn kd(&self) -> Kind { table_kind(*self) }
    open spec fn df(&self, v: Option<HudiConfigValue>) -> bool { table_default(*self, v) }
    open spec fn has_value(&self, m: Map<Seq<char>, String>) -> bool { *self == HudiTableConfig::RecordMergeStrategy || well_set(table_key(*self), table_kind(*self), m) || !table_default(*self, None) }
    open spec fn value(&self, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool { table_value(*self, m, v) }
    open spec fn required(&self) -> bool { *self == HudiTableConfig::TableName || *self == HudiTableConfig::TableType || *self == HudiTableConfig::TableVersion }
    fn parse_value(&self, c: &VMap<String, String>) -> (r: ConfigResult<HudiConfigValue>) { HudiTableConfig::parse_value(self, c) }
    fn default_value(&self) -> (r: Option<HudiConfigValue>) { HudiTableConfig::default_value(self) }
    fn parse_value_or_default(&self, c: &VMap<String, String>) -> (r: HudiConfigValue) { HudiTableConfig::parse_value_or_default(self, c) }
    fn validate(&self, c: &VMap<String, String>) -> (r: ConfigResult<()>) { HudiTableConfig::validate(self, c) }
}
impl VxParser for HudiReadConfig {
    open spec fn nm(&self) -> Seq<char> { read_key(*self) }
    open spec fn kd(&self) -> Kind { read_kind(*self) }
    open spec fn df(&self, v: Option<HudiConfigValue>) -> bool { read_default(*self, v) }
    open spec fn has_value(&self, m: Map<Seq<char>, String>) -> bool { well_set(read_key(*self), read_kind(*self), m) || !read_default(*self, None) }
    open spec fn value(&self, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool { read_value(*self, m, v) }
    open spec fn required(&self) -> bool { false }
    fn parse_value(&self, c: &VMap<String, String>) -> (r: ConfigResult<HudiConfigValue>) { HudiReadConfig::parse_value(self, c) }
    fn default_value(&self) -> (r: Option<HudiConfigValue>) { HudiReadConfig::default_value(self) }
    fn parse_value_or_default(&self, c: &VMap<String, String>) -> (r: HudiConfigValue) { HudiReadConfig::parse_value_or_default(self, c) }
    fn validate(&self, c: &VMap<String, String>) -> (r: ConfigResult<()>) { HudiReadConfig::validate(self, c) }
}
impl VxParser for HudiInternalConfig {
    open spec fn nm(&self) -> Seq<char> { internal_key(*self) }
    open spec fn kd(&self) -> Kind { internal_kind(*self) }
    open spec fn df(&self, v: Option<HudiConfigValue>) -> bool { v == Some(HudiConfigValue::Boolean(false)) }
    open spec fn has_value(&self, m: Map<Seq<char>, String>) -> bool { true }
    open spec fn value(&self, m: Map<Seq<char>, String>, v: HudiConfigValue) -> bool { internal_value(*self, m, v) }
    open spec fn required(&self) -> bool { false }
    fn parse_value(&self, c: &VMap<String, String>) -> (r: ConfigResult<HudiConfigValue>) { HudiInternalConfig::parse_value(self, c) }
    fn default_value(&self) -> (r: Option<HudiConfigValue>) { HudiInternalConfig::default_value(self) }
    fn parse_value_or_default(&self, c: &VMap<String, String>) -> (r: HudiConfigValue) { HudiInternalConfig::parse_value_or_default(self, c) }
    fn validate(&self, c: &VMap<String, String>) -> (r: ConfigResult<()>) { HudiInternalConfig::validate(self, c) }
}

// ---- the option set ---------------------------------------------------------------------------
//@type crates/core/src/config/mod.rs HudiConfigs
pub trait VxArcRef<T> { fn vx_as_ref<'a>(&'a self) -> &'a T; }
impl<T> VxArcRef<T> for Arc<T> { #[verifier::external_body] fn vx_as_ref<'a>(&'a self) -> (r: &'a T) ensures *r == **self { self.as_ref() } }
//@fn crates/core/src/config/mod.rs HudiConfigs::validate
@rule path Result ConfigResult
@spec
    ensures ret is Ok <==> (if self.raw_options@.dom().contains(parser.nm()) { good(parser.kd(), self.raw_options@[parser.nm()]@) } else { !parser.required() })
//@end
//@fn crates/core/src/config/mod.rs HudiConfigs::get
@rule path Result ConfigResult
@spec
    ensures outcome(parser.nm(), parser.kd(), self.raw_options@, ret)
//@end
//@fn crates/core/src/config/mod.rs HudiConfigs::get_or_default
@spec
    requires parser.has_value(self.raw_options@)
    ensures parser.value(self.raw_options@, ret)
//@end
//@fn crates/core/src/config/mod.rs HudiConfigs::try_get
@spec
    ensures if well_set(parser.nm(), parser.kd(), self.raw_options@) { ret is Some && says(parser.kd(), self.raw_options@[parser.nm()]@, ret->Some_0) } else { parser.df(ret) }
//@end
//@fn crates/core/src/config/mod.rs HudiConfigs::as_options
@rule method as_ref vx_as_ref
@spec
    ensures ret@ == self.raw_options@
//@end

/// `K: AsRef<str>`, `V: Into<String>`
pub trait VxAsStr { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
impl VxAsStr for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { self } }
impl VxAsStr for &String { open spec fn text(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { self } }
impl VxAsStr for &str { open spec fn text(&self) -> Seq<char> { (**self)@ } fn as_ref(&self) -> (r: &str) { self } }
pub trait VxIntoStr: Sized { spec fn text(self) -> Seq<char>; fn vx_into(self) -> (r: String) ensures r@ == self.text(); }
impl VxIntoStr for String { open spec fn text(self) -> Seq<char> { self@ } fn vx_into(self) -> (r: String) { self } }
impl VxIntoStr for &String { open spec fn text(self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.into() } }
impl VxIntoStr for &str { open spec fn text(self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.into() } }
/// m has the options given whose name satisfies p, each with the value given last
pub open spec fn given<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() && p((#[trigger] e[i]).0.text()) ==> m.dom().contains(e[i].0.text())
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> p(k) && given_last(e, k, m[k]@)
}
pub open spec fn given_last<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, k: Seq<char>, v: Seq<char>) -> bool { exists|i: int| #![trigger e[i]] 0 <= i < e.len() && last_at(e, k, v, i) }
pub open spec fn last_at<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, k: Seq<char>, v: Seq<char>, i: int) -> bool { 0 <= i < e.len() && e[i].0.text() == k && e[i].1.text() == v && forall|j: int| i < j < e.len() ==> (#[trigger] e[j]).0.text() != k }
pub open spec fn given_all<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, gv: Map<Seq<char>, String>) -> bool { given(e, |k: Seq<char>| true, gv) }
pub open spec fn hoodie(k: Seq<char>) -> bool { is_prefix("hoodie."@, k) }
pub proof fn lemma_given_push<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>, x: (K, V), v: String, m2: Map<Seq<char>, String>)
    requires given(e, p, m), v@ == x.1.text(), m2 == (if p(x.0.text()) { m.insert(x.0.text(), v) } else { m })
    ensures given(e.push(x), p, m2)
{
    let f = e.push(x); let kx = x.0.text();
    assert forall|i: int| 0 <= i < f.len() && p((#[trigger] f[i]).0.text()) implies m2.dom().contains(f[i].0.text()) by { if i < e.len() { assert(f[i] == e[i]); } }
    assert forall|k: Seq<char>| #[trigger] m2.dom().contains(k) implies p(k) && given_last(f, k, m2[k]@) by {
        if p(kx) && k == kx { assert(last_at(f, k, m2[k]@, e.len() as int)); assert(f[e.len() as int] == x); }
        else { assert(m.dom().contains(k)); let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && last_at(e, k, m[k]@, i); assert(f[i] == e[i]);
            assert forall|j: int| i < j < f.len() implies (#[trigger] f[j]).0.text() != k by { if j < e.len() { assert(f[j] == e[j]); } }
            assert(last_at(f, k, m2[k]@, i)); }
    }
}
/// what a map of options holds
pub open spec fn mv(m: VMap<String, String>) -> Map<Seq<char>, String> { m@ }
//@rule path AsRef<str> VxAsStr
//@rule path Into<String> VxIntoStr
//@rule path IntoIterator VxIntoIterator
//@rule method into vx_into
//@rule method into_iter vx_into_iter
//@rule method starts_with vx_starts_with
//@rule method trim vx_trim
//@fn crates/core/src/config/mod.rs HudiConfigs::new
@spec
    ensures given(options.items(), |k: Seq<char>| true, ret.raw_options@), given_all(options.items(), ret.raw_options@)
@closure 0
    |$1: (K, V)| -> (o: (String, String)) ensures o.0@ == $1.0.text(), o.1@ == $1.1.text()
@after let raw_options
    proof {
        let e = options.items(); let m = mv(raw_options);
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies given_last(e, k, m[k]@) by {}
    }
//@end
//@fn crates/core/src/config/mod.rs HudiConfigs::empty
@spec
    ensures ret.raw_options@ == Map::<Seq<char>, String>::empty()
//@end
//@fn crates/core/src/config/mod.rs HudiConfigs::contains
@rule path AsRef<str> VxAsStr
@spec
    ensures ret == self.raw_options@.dom().contains(key.text())
//@end
//@fn crates/core/src/config/util.rs split_hudi_options_from_others
@spec
    ensures given(all_options.items(), |k: Seq<char>| hoodie(k), ret.0@), given(all_options.items(), |k: Seq<char>| !hoodie(k), ret.1@)
@loop 0 pre
    let ghost all = vx_it0@; let ghost mut n = 0int;
@loop 0
    invariant all == all_options.items(), 0 <= n <= all.len(), vx_it0@ == all.subrange(n, all.len() as int), given(all.subrange(0, n), |k: Seq<char>| hoodie(k), mv(hudi_options)), given(all.subrange(0, n), |k: Seq<char>| !hoodie(k), mv(others))
    ensures n == all.len(), given(all.subrange(0, n), |k: Seq<char>| hoodie(k), mv(hudi_options)), given(all.subrange(0, n), |k: Seq<char>| !hoodie(k), mv(others))
    decreases vx_it0@.len()
@loop 0 start
    let ghost h0 = mv(hudi_options); let ghost o0 = mv(others); let ghost x = all[n];
@loop 0 end
    proof {
        assert(all.subrange(0, n + 1) =~= all.subrange(0, n).push(x));
        let key = x.0.text();
        if hoodie(key) { lemma_given_push(all.subrange(0, n), |k: Seq<char>| hoodie(k), h0, x, mv(hudi_options)[key], mv(hudi_options)); lemma_given_push(all.subrange(0, n), |k: Seq<char>| !hoodie(k), o0, x, mv(hudi_options)[key], o0); }
        else { lemma_given_push(all.subrange(0, n), |k: Seq<char>| !hoodie(k), o0, x, mv(others)[key], mv(others)); lemma_given_push(all.subrange(0, n), |k: Seq<char>| hoodie(k), h0, x, mv(others)[key], h0); }
        n = n + 1;
    }
@loop 0 post
    proof { assert(all.subrange(0, n) =~= all); }
//@end

// ---- option files -----------------------------------------------------------------------------
#[verifier::external_body] pub struct VBytes { _p: () }
impl View for VBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct VIoError { _p: () }
/// the lines BufRead::lines reads from these bytes, each without its line end; None: not UTF-8
pub uninterp spec fn text_lines(b: Seq<u8>) -> Seq<Option<Seq<char>>>;
pub struct VCursor<'a> { pub b: &'a VBytes }
impl<'a> VCursor<'a> { pub fn new(b: &'a VBytes) -> (r: VCursor<'a>) ensures *r.b == *b { VCursor { b } } }
pub struct VBufReader<'a> { pub b: &'a VBytes }
impl<'a> VBufReader<'a> {
    pub fn new(c: VCursor<'a>) -> (r: VBufReader<'a>) ensures *r.b == *c.b { VBufReader { b: c.b } }
    #[verifier::external_body] pub fn lines(self) -> (r: VIter<core::result::Result<String, VIoError>>)
        ensures r@.len() == text_lines(self.b@).len(), forall|i: int| #![trigger r@[i]] #![trigger text_lines(self.b@)[i]] 0 <= i < r@.len() ==> match r@[i] { Ok(l) => text_lines(self.b@)[i] == Some(l@), Err(_) => text_lines(self.b@)[i] is None } { unimplemented!() }
}
pub uninterp spec fn spec_trim_start(s: Seq<char>) -> Seq<char>;
pub open spec fn first_sep(s: Seq<char>, seps: Seq<char>) -> int decreases s.len() { if s.len() == 0 || seps.contains(s[0]) { 0 } else { 1 + first_sep(s.drop_first(), seps) } }
pub proof fn lemma_first_sep(s: Seq<char>, seps: Seq<char>)
    ensures 0 <= first_sep(s, seps) <= s.len(), forall|i: int| 0 <= i < first_sep(s, seps) ==> !seps.contains(#[trigger] s[i]), first_sep(s, seps) < s.len() ==> seps.contains(s[first_sep(s, seps)])
    decreases s.len()
{ if s.len() > 0 && !seps.contains(s[0]) { lemma_first_sep(s.drop_first(), seps); assert forall|i: int| 0 <= i < first_sep(s, seps) implies !seps.contains(#[trigger] s[i]) by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } } } }
/// closures as str patterns, and the str functions over them
pub trait VxStrBy: View<V = Seq<char>> {
    fn vx_find<F: Fn(char) -> bool>(&self, f: F) -> Option<usize> requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],));
    fn vx_split_at<'a>(&'a self, n: usize) -> (&'a str, &'a str) requires exists|k: int| byte_pos(self@, k, n as int);
    fn vx_trim_start<'a>(&'a self) -> &'a str;
    fn vx_strip_prefix_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> Option<&'a str> requires self@.len() > 0 ==> f.requires((self@[0],));
    fn vx_contains_char(&self, c: char) -> bool;
}
impl VxStrBy for str {
    #[verifier::external_body]
    fn vx_find<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        ensures match r { None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
            Some(n) => exists|k: int| byte_pos(self@, k, n as int) && k < self@.len() && f.ensures((#[trigger] self@[k],), true) && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self@[i],), false) }
    { unimplemented!() /* self.find(f) */ }
    #[verifier::external_body]
    fn vx_split_at<'a>(&'a self, n: usize) -> (r: (&'a str, &'a str))
        ensures forall|k: int| #[trigger] byte_pos(self@, k, n as int) ==> r.0@ == self@.subrange(0, k) && r.1@ == self@.subrange(k, self@.len() as int)
    { unimplemented!() /* self.split_at(n) */ }
    #[verifier::external_body]
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == spec_trim_start(self@) { unimplemented!() /* self.trim_start() */ }
    #[verifier::external_body]
    fn vx_strip_prefix_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: Option<&'a str>)
        ensures match r { Some(t) => self@.len() > 0 && f.ensures((self@[0],), true) && t@ == self@.drop_first(), None => self@.len() > 0 ==> f.ensures((self@[0],), false) }
    { unimplemented!() /* self.strip_prefix(f) */ }
    #[verifier::external_body]
    fn vx_contains_char(&self, c: char) -> (r: bool) ensures r == self@.contains(c) { unimplemented!() /* self.contains(c) */ }
}
/// how a line `key SEP value` is read: the key ends at the first separator; one separator, and the spaces around it, part it from the value
pub open spec fn line_key(l: Seq<char>, seps: Seq<char>) -> Seq<char> { spec_trim(l.subrange(0, first_sep(l, seps))) }
pub open spec fn after_sep(t: Seq<char>, seps: Seq<char>) -> Seq<char> { if t.len() > 0 && seps.contains(t[0]) { t.drop_first() } else { t } }
pub open spec fn line_value(l: Seq<char>, seps: Seq<char>) -> Seq<char> { spec_trim(after_sep(spec_trim_start(l.subrange(first_sep(l, seps), l.len() as int)), seps)) }
pub open spec fn no_option(l: Seq<char>) -> bool { spec_trim(l).len() == 0 || is_prefix(seq!['#'], spec_trim(l)) }
pub open spec fn text_options(ls: Seq<Option<Seq<char>>>, seps: Seq<char>) -> Map<Seq<char>, Seq<char>> decreases ls.len() {
    if ls.len() == 0 { Map::empty() } else { let m = text_options(ls.drop_last(), seps); let l = ls.last()->Some_0; if no_option(l) { m } else { m.insert(line_key(spec_trim(l), seps), line_value(spec_trim(l), seps)) } }
}
pub open spec fn readable(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < text_lines(b).len() ==> (#[trigger] text_lines(b)[i]) is Some }
/// the same options, as texts
pub open spec fn texts(m: Map<Seq<char>, String>, t: Map<Seq<char>, Seq<char>>) -> bool { m.dom() == t.dom() && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k]@ == t[k] }
//@rule path Bytes VBytes
//@rule path Cursor VCursor
//@rule path BufReader VBufReader
//@fn crates/core/src/config/util.rs parse_data_for_options
@rule opaque_fmt
@rule path Result ConfigResult
@rule method find vx_find
@rule method split_at vx_split_at
@rule method trim_start vx_trim_start
@rule method strip_prefix vx_strip_prefix_by
@rule method contains vx_contains_char
@spec
    ensures match ret { Ok(m) => readable(data@) && texts(m@, text_options(text_lines(data@), split_chars@)), Err(_) => !readable(data@) }
@loop 0 pre
    let ghost all = vx_it0@; let ghost ls = text_lines(data@); let ghost mut n = 0int;
    proof { assert(ls.subrange(0, 0) =~= Seq::<Option<Seq<char>>>::empty()); }
@loop 0
    invariant ls == text_lines(data@), all.len() == ls.len(), 0 <= n <= all.len(), vx_it0@ == all.subrange(n, all.len() as int),
        forall|i: int| #![trigger all[i]] #![trigger ls[i]] 0 <= i < all.len() ==> match all[i] { Ok(l) => ls[i] == Some(l@), Err(_) => ls[i] is None },
        forall|i: int| 0 <= i < n ==> (#[trigger] ls[i]) is Some,
        texts(mv(options), text_options(ls.subrange(0, n), split_chars@))
    ensures n == all.len(), forall|i: int| 0 <= i < n ==> (#[trigger] ls[i]) is Some, texts(mv(options), text_options(ls.subrange(0, n), split_chars@))
    decreases vx_it0@.len()
@loop 0 start
    let ghost l0 = all[n]; let ghost o0 = mv(options);
    proof {
        if l0 is Ok { let t = spec_trim(l0->Ok_0@); lemma_first_sep(t, split_chars@);
            assert forall|k: int| (0 <= k < t.len() && split_chars@.contains(#[trigger] t[k]) && forall|i: int| 0 <= i < k ==> !split_chars@.contains(#[trigger] t[i])) implies k == first_sep(t, split_chars@) by {}
            assert(t.subrange(t.len() as int, t.len() as int) =~= Seq::empty()); assert(t.subrange(0, t.len() as int) =~= t); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); } n = n + 1; assert(ls.subrange(0, n).drop_last() =~= ls.subrange(0, n - 1)); assert(ls.subrange(0, n).last() == ls[n - 1]); }
@loop 0 post
    proof { assert(ls.subrange(0, n) =~= ls); }
@closure 0
    |e: VIoError| -> (o: ConfigError) ensures true
@closure 1
    |c: char| -> (o: bool) ensures o == split_chars@.contains(c)
//@end

// ---- which tables are accepted ----------------------------------------------------------------
/// an option is in order: well-formed when set, and set when required
pub open spec fn table_ok(c: HudiTableConfig, m: Map<Seq<char>, String>) -> bool { if m.dom().contains(table_key(c)) { good(table_kind(c), m[table_key(c)]@) } else { !(c == HudiTableConfig::TableName || c == HudiTableConfig::TableType || c == HudiTableConfig::TableVersion) } }
pub open spec fn read_ok(c: HudiReadConfig, m: Map<Seq<char>, String>) -> bool { m.dom().contains(read_key(c)) ==> good(read_kind(c), m[read_key(c)]@) }
pub open spec fn set_to(c: HudiTableConfig, b: bool, m: Map<Seq<char>, String>) -> bool { well_set(table_key(c), Kind::Bool, m) && bool::parsed(m[table_key(c)]@) == Some(b) }
pub open spec fn int_of(c: HudiTableConfig, m: Map<Seq<char>, String>) -> Option<isize> { if m.dom().contains(table_key(c)) { parsed_isize(m[table_key(c)]@) } else { None } }
pub open spec fn merge_of(m: Map<Seq<char>, String>) -> Seq<char> { let k = table_key(HudiTableConfig::RecordMergeStrategy); if well_set(k, Kind::Merge, m) { named(Kind::Merge, m[k]@)->Some_0 } else { merge_default(m) } }
/// the merge strategy fits the table: rows can only be merged with meta fields and a precombine field
pub open spec fn merge_ok(m: Map<Seq<char>, String>) -> bool { merge_of(m) == "append_only"@ || (!set_to(HudiTableConfig::PopulatesMetaFields, false, m) && m.dom().contains(table_key(HudiTableConfig::PrecombineField))) }
pub open spec fn skips(m: Map<Seq<char>, String>) -> bool { let k = internal_key(HudiInternalConfig::SkipConfigValidation); well_set(k, Kind::Bool, m) && bool::parsed(m[k]@) == Some(true) }
pub open spec fn accepted(m: Map<Seq<char>, String>) -> bool {
    skips(m) || {
        &&& forall|c: HudiTableConfig| #[trigger] table_ok(c, m)
        &&& forall|c: HudiReadConfig| #[trigger] read_ok(c, m)
        &&& (int_of(HudiTableConfig::TableVersion, m) == Some(5isize) || int_of(HudiTableConfig::TableVersion, m) == Some(6isize))
        &&& int_of(HudiTableConfig::TimelineLayoutVersion, m) == Some(1isize)
        &&& !set_to(HudiTableConfig::DropsPartitionFields, true, m)
        &&& merge_ok(m)
    }
}
pub proof fn lemma_names() ensures ascii_lower("append_only"@) == "append_only"@, ascii_lower("overwrite_with_latest"@) == "overwrite_with_latest"@, "append_only"@ != "overwrite_with_latest"@, name_RecordMergeStrategyValue(RecordMergeStrategyValue::AppendOnly) == "append_only"@, name_RecordMergeStrategyValue(RecordMergeStrategyValue::OverwriteWithLatest) == "overwrite_with_latest"@
{
    reveal_strlit("append_only"); reveal_strlit("overwrite_with_latest");
    assert("append_only"@.len() == 11 && "overwrite_with_latest"@.len() == 21);
    assert(ascii_lower("append_only"@) =~= "append_only"@);
    assert(ascii_lower("overwrite_with_latest"@) =~= "overwrite_with_latest"@);
}
pub open spec fn listed<T>(s: Seq<T>, c: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }
/// strum's EnumIter: every option of the enum
#[verifier::external_body] pub fn vx_table_options() -> (r: VIter<HudiTableConfig>) ensures forall|c: HudiTableConfig| #[trigger] listed(r@, c) { unimplemented!() /* HudiTableConfig::iter() */ }
#[verifier::external_body] pub fn vx_read_options() -> (r: VIter<HudiReadConfig>) ensures forall|c: HudiReadConfig| #[trigger] listed(r@, c) { unimplemented!() /* HudiReadConfig::iter() */ }
pub struct RecordMerger { }
//@fn crates/core/src/merge/record_merger.rs RecordMerger::validate_configs
@rule opaque_fmt
@rule plain_eq
@rule path RecordMergeStrategy HudiTableConfig::RecordMergeStrategy
@rule path PopulatesMetaFields HudiTableConfig::PopulatesMetaFields
@rule path PrecombineField HudiTableConfig::PrecombineField
@spec
    ensures ret is Ok <==> merge_ok(hudi_configs.raw_options@)
@start
    proof { lemma_names(); }
//@end

// ---- layering ---------------------------------------------------------------------------------
pub broadcast axiom fn ax_clone_key<K: VxKey + Clone>(a: K, b: K) ensures #[trigger] call_ensures(K::clone, (&a,), b) ==> a.k() == b.k();
pub open spec fn same_value<V: Clone>(a: V, b: V) -> bool { cloned(a, b) }
impl<K: VxKey, V> VMap<K, V> {
    /// entry(k).or_insert_with(f)
    #[verifier::external_body] pub fn vx_entry_or_insert_with<'a, F: FnOnce() -> V>(&'a mut self, k: K, f: F) -> (r: &'a mut V)
        requires f.requires(())
        ensures old(self)@.dom().contains(k.k()) ==> *r == old(self)@[k.k()], !old(self)@.dom().contains(k.k()) ==> f.ensures((), *r), final(self)@ == old(self)@.insert(k.k(), *final(r)) { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body] pub fn chain<I: VxIntoIterator<Item = T>>(self, o: I) -> (r: VIter<T>) ensures r@ == self@ + o.items() { unimplemented!() }
}
//@type crates/core/src/table/builder.rs TableBuilder
//@fn crates/core/src/table/builder.rs TableBuilder::validate_configs
@rule opaque_fmt
@rule range_index
@rule path SkipConfigValidation HudiInternalConfig::SkipConfigValidation
@rule path HudiTableConfig::iter vx_table_options
@rule path HudiReadConfig::iter vx_read_options
@rule path TableVersion HudiTableConfig::TableVersion
@rule path TimelineLayoutVersion HudiTableConfig::TimelineLayoutVersion
@rule path DropsPartitionFields HudiTableConfig::DropsPartitionFields
@spec
    ensures ret is Ok <==> accepted(hudi_configs.raw_options@)
@loop 0 pre
    let ghost m = hudi_configs.raw_options@; let ghost ts = vx_it0@; let ghost mut n = 0int;
@loop 0
    invariant m == hudi_configs.raw_options@, !skips(m), 0 <= n <= ts.len(), vx_it0@ == ts.subrange(n, ts.len() as int), forall|i: int| 0 <= i < n ==> table_ok(#[trigger] ts[i], m),
        forall|c: HudiTableConfig| #[trigger] listed(ts, c)
    ensures n == ts.len(), forall|i: int| 0 <= i < n ==> table_ok(#[trigger] ts[i], m)
    decreases vx_it0@.len()
@loop 0 post
    proof { assert forall|c: HudiTableConfig| #[trigger] table_ok(c, m) by { assert(listed(ts, c)); } }
@loop 0 start
    let ghost c0 = ts[n]; proof { n = n + 1; if !table_ok(c0, m) { assert(!accepted(m)); } }
@loop 1 pre
    let ghost m = hudi_configs.raw_options@; let ghost rs = vx_it1@; let ghost mut q = 0int;
@loop 1
    invariant m == hudi_configs.raw_options@, !skips(m), 0 <= q <= rs.len(), vx_it1@ == rs.subrange(q, rs.len() as int), forall|i: int| 0 <= i < q ==> read_ok(#[trigger] rs[i], m),
        forall|c: HudiReadConfig| #[trigger] listed(rs, c)
    ensures q == rs.len(), forall|i: int| 0 <= i < q ==> read_ok(#[trigger] rs[i], m)
    decreases vx_it1@.len()
@loop 1 post
    proof { assert forall|c: HudiReadConfig| #[trigger] read_ok(c, m) by { assert(listed(rs, c)); } assert(table_ok(HudiTableConfig::TableVersion, m)); assert(table_ok(HudiTableConfig::TimelineLayoutVersion, m)); assert(table_ok(HudiTableConfig::DropsPartitionFields, m)); }
@loop 1 start
    let ghost r0 = rs[q]; proof { q = q + 1; if !read_ok(r0, m) { assert(!accepted(m)); } }
//@end

pub type Txt = Map<Seq<char>, Seq<char>>;
pub open spec fn txt(m: Map<Seq<char>, String>) -> Txt { m.map_values(|s: String| s@) }
/// hi over lo
pub open spec fn over(hi: Txt, lo: Txt) -> Txt { lo.union_prefer_right(hi) }
pub open spec fn only(m: Txt, p: spec_fn(Seq<char>) -> bool) -> Txt { m.restrict(m.dom().filter(p)) }
/// r is t with the entries of s whose key t has not
pub open spec fn added_absent<K, V: Clone>(t: Map<K, V>, s: Map<K, V>, r: Map<K, V>) -> bool { r.dom() == t.dom().union(s.dom()) && forall|k: K| #[trigger] r.dom().contains(k) ==> if t.dom().contains(k) { r[k] == t[k] } else { cloned(s[k], r[k]) } }
//@fn crates/core/src/table/builder.rs TableBuilder::extend_if_absent
@rule path Hash VxKey
@rule range_index
@spec
    ensures added_absent(old(target)@, source@, final(target)@)
@loop 0 pre
    let ghost e = vx_it0@; let ghost mut n = 0int; let ghost t0 = target@;
@loop 0
    invariant lists::<K, V>(e, source@, |k: K::K| true), 0 <= n <= e.len(), vx_it0@ == e.subrange(n, e.len() as int),
        forall|k: K::K| t0.dom().contains(k) ==> (#[trigger] target@.dom().contains(k)) && target@[k] == t0[k],
        forall|i: int| 0 <= i < n ==> target@.dom().contains((#[trigger] e[i]).0.k()),
        forall|k: K::K| #[trigger] target@.dom().contains(k) && !t0.dom().contains(k) ==> source@.dom().contains(k) && cloned(source@[k], target@[k])
    ensures n == e.len(), 
        forall|k: K::K| t0.dom().contains(k) ==> (#[trigger] target@.dom().contains(k)) && target@[k] == t0[k],
        forall|i: int| 0 <= i < n ==> target@.dom().contains((#[trigger] e[i]).0.k()),
        forall|k: K::K| #[trigger] target@.dom().contains(k) && !t0.dom().contains(k) ==> source@.dom().contains(k) && cloned(source@[k], target@[k])
    decreases vx_it0@.len()
@loop 0 start
    let ghost x = e[n]; let ghost t1 = target@; proof { n = n + 1; broadcast use ax_clone_key; }
@loop 0 post
    proof { assert(target@.dom() =~= t0.dom().union(source@.dom())) by { assert forall|k: K::K| source@.dom().contains(k) implies #[trigger] target@.dom().contains(k) by { assert((|k: K::K| true)(k)); } } }
@closure 0
    || -> (o: V) ensures cloned(*value, o)
//@end

pub open spec fn base_key() -> Seq<char> { table_key(HudiTableConfig::BasePath) }
/// the options the caller gave: a Hudi option given as such (and the table's own location) over the generic ones; the other generic options are for the storage
pub open spec fn user_hudi(b: TableBuilder) -> Txt { over(txt(b.hudi_options@).insert(base_key(), b.base_uri@), only(txt(b.options@), |k: Seq<char>| hoodie(k))) }
pub open spec fn user_storage(b: TableBuilder) -> Txt { over(txt(b.storage_options@), only(txt(b.options@), |k: Seq<char>| !hoodie(k))) }
/// what `given` says of the entries of a map
pub proof fn lemma_given_map<'a>(e: Seq<(&'a String, &'a String)>, src: Map<Seq<char>, String>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>)
    requires lists::<String, String>(e, src, |k: Seq<char>| true), given(e, p, m)
    ensures txt(m) == only(txt(src), p)
{
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> src.dom().contains(k) && p(k) by {
        if m.dom().contains(k) { assert(given_last(e, k, m[k]@)); let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && last_at(e, k, m[k]@, i); assert(e[i].0.k() == k); }
        if src.dom().contains(k) && p(k) { assert((|k: Seq<char>| true)(k)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(VxAsStr::text(&e[i].0) == k); }
    }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies m[k]@ == src[k]@ by { assert(given_last(e, k, m[k]@)); let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && last_at(e, k, m[k]@, i); assert(e[i].0.k() == k); }
    assert(txt(m) =~= only(txt(src), p));
}
pub proof fn lemma_absent(t: Map<Seq<char>, String>, src: Map<Seq<char>, String>, r: Map<Seq<char>, String>)
    requires added_absent(t, src, r)
    ensures txt(r) == over(txt(t), txt(src))
{ assert(txt(r) =~= over(txt(t), txt(src))); }
//@fn crates/core/src/table/builder.rs TableBuilder::resolve_user_provided_options
@spec
    ensures txt(final(self).hudi_options@) == user_hudi(*old(self)), txt(final(self).storage_options@) == user_storage(*old(self)), final(self).base_uri == old(self).base_uri, final(self).options == old(self).options
@before let (generic_hudi_opts
    let ghost h0 = mv(self.hudi_options);
@after let (generic_hudi_opts
    proof {
        assert(txt(h0) =~= txt(old(self).hudi_options@).insert(base_key(), old(self).base_uri@));
        assert forall|e: Seq<(&String, &String)>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>| lists::<String, String>(e, self.options@, |k: Seq<char>| true) && #[trigger] given(e, p, m) implies txt(m) == only(txt(self.options@), p) by { lemma_given_map(e, self.options@, p, m); }
        assert forall|t: Map<Seq<char>, String>, s: Map<Seq<char>, String>, r: Map<Seq<char>, String>| #[trigger] added_absent(t, s, r) implies txt(r) == over(txt(t), txt(s)) by { lemma_absent(t, s, r); }
        assert(txt(mv(generic_hudi_opts)) == only(txt(self.options@), |k: Seq<char>| hoodie(k)));
        assert(txt(mv(generic_other_opts)) == only(txt(self.options@), |k: Seq<char>| !hoodie(k)));
    }
//@end

/// the environment of the process
pub uninterp spec fn env_list() -> Seq<(String, String)>;
pub uninterp spec fn env_value(k: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub fn vx_env_vars() -> (r: VIter<(String, String)>) ensures r@ == env_list() { unimplemented!() /* env::vars() */ }
#[verifier::external_body] pub struct VVarError { _p: () }
#[verifier::external_body] pub fn vx_env_var(k: &str) -> (r: core::result::Result<String, VVarError>) ensures match r { Ok(v) => env_value(k@) == Some(v@), Err(_) => env_value(k@) is None } { unimplemented!() /* env::var(k) */ }
impl VxPat for &&str { open spec fn pat(&self) -> Seq<char> { (***self)@ } }
pub struct Storage { pub inner: VStorage }
#[verifier::external_body] pub struct VStorage { _p: () }
//@rule path Storage::CLOUD_STORAGE_PREFIXES Storage_CLOUD_STORAGE_PREFIXES
//@type crates/core/src/storage/mod.rs Storage::CLOUD_STORAGE_PREFIXES ensures Storage_CLOUD_STORAGE_PREFIXES@.map_values(|s: &'static str| s@) =~= seq!["AWS_"@, "AZURE_"@, "GOOGLE_"@]
pub open spec fn cloud(k: Seq<char>) -> bool { is_prefix("AWS_"@, k) || is_prefix("AZURE_"@, k) || is_prefix("GOOGLE_"@, k) }
/// entry i is the first that gives the storage option k (the lower-case of its name)
pub open spec fn gives(c: Seq<(String, String)>, i: int, k: Seq<char>) -> bool { cloud(c[i].0@) && ascii_lower(c[i].0@) == k }
pub open spec fn first_for(c: Seq<(String, String)>, n: int, k: Seq<char>, v: Seq<char>) -> bool { exists|i: int| #![trigger c[i]] 0 <= i < n && gives(c, i, k) && c[i].1@ == v && forall|j: int| #![trigger c[j]] 0 <= j < i ==> !gives(c, j, k) }
pub open spec fn filled_from(s: Txt, c: Seq<(String, String)>, n: int, r: Txt) -> bool {
    &&& forall|k: Seq<char>| #[trigger] r.dom().contains(k) ==> if s.dom().contains(k) { r[k] == s[k] } else { first_for(c, n, k, r[k]) }
    &&& forall|k: Seq<char>| s.dom().contains(k) ==> #[trigger] r.dom().contains(k)
    &&& forall|i: int| 0 <= i < n && cloud((#[trigger] c[i]).0@) ==> r.dom().contains(ascii_lower(c[i].0@))
}
/// u lists the entries of s
pub open spec fn entries_of(u: Seq<(String, String)>, s: Txt) -> bool {
    &&& forall|i: int| 0 <= i < u.len() ==> s.dom().contains((#[trigger] u[i]).0@) && u[i].1@ == s[u[i].0@]
    &&& forall|k: Seq<char>| #[trigger] s.dom().contains(k) ==> exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0@ == k
}
/// the storage options after the cloud options: what the caller gave as such, then what he gave in upper case, then the environment
pub open spec fn cloud_filled(s: Txt, r: Txt) -> bool { exists|u: Seq<(String, String)>| #[trigger] entries_of(u, s) && filled_from(s, u + env_list(), (u + env_list()).len() as int, r) }
/// an option the caller gave, in whichever case, is never the one of the environment
pub proof fn lemma_user_first(s: Txt, r: Txt, k: Seq<char>, up: Seq<char>)
    requires cloud_filled(s, r), s.dom().contains(up), cloud(up), ascii_lower(up) == k
    ensures r.dom().contains(k), s.dom().contains(k) ==> r[k] == s[k], !s.dom().contains(k) ==> exists|o: Seq<char>| #[trigger] s.dom().contains(o) && ascii_lower(o) == k && r[k] == s[o]
{
    let u = choose|u: Seq<(String, String)>| #[trigger] entries_of(u, s) && filled_from(s, u + env_list(), (u + env_list()).len() as int, r); let c = u + env_list();
    let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0@ == up; assert(c[i] == u[i]);
    if !s.dom().contains(k) { assert(first_for(c, c.len() as int, k, r[k])); let j = choose|j: int| #![trigger c[j]] 0 <= j < c.len() && gives(c, j, k) && c[j].1@ == r[k] && forall|h: int| #![trigger c[h]] 0 <= h < j ==> !gives(c, h, k); assert(j <= i); assert(c[j] == u[j]); assert(s.dom().contains(u[j].0@)); }
}
//@fn crates/core/src/table/builder.rs TableBuilder::resolve_cloud_env_vars
@rule path env::vars vx_env_vars
@spec
    ensures cloud_filled(txt(old(self).storage_options@), txt(final(self).storage_options@)), final(self).base_uri == old(self).base_uri, final(self).options == old(self).options, final(self).hudi_options == old(self).hudi_options
@loop 0 pre
    let ghost c = vx_it0@; let ghost mut n = 0int; let ghost s0 = txt(old(self).storage_options@); let ghost u = c.subrange(0, c.len() - env_list().len());
    proof { assert(u + env_list() =~= c); assert(entries_of(u, s0)) by { let items = user_provided.items(); assert(u =~= items); } }
@loop 0
    invariant c == u + env_list(), entries_of(u, s0), 0 <= n <= c.len(), vx_it0@ == c.subrange(n, c.len() as int), filled_from(s0, c, n, txt(self.storage_options@)),
        self.base_uri == old(self).base_uri, self.options == old(self).options, self.hudi_options == old(self).hudi_options
    ensures n == c.len(), filled_from(s0, c, n, txt(self.storage_options@)), self.base_uri == old(self).base_uri, self.options == old(self).options, self.hudi_options == old(self).hudi_options
    decreases vx_it0@.len()
@loop 0 start
    let ghost x = c[n]; let ghost r0 = mv(self.storage_options);
    proof { n = n + 1; }
@closure 0
    |prefix: &&'static str| -> (o: bool) ensures o == is_prefix(prefix@, key@)
@loop 0 end
    proof {
        let r = mv(self.storage_options); let kk = ascii_lower(x.0@);
        assert(cloud(x.0@) ==> txt(r).dom().contains(kk));
        assert forall|k: Seq<char>| #[trigger] txt(r).dom().contains(k) implies (if s0.dom().contains(k) { txt(r)[k] == s0[k] } else { first_for(c, n, k, txt(r)[k]) }) by {
            if txt(r0).dom().contains(k) { if !s0.dom().contains(k) { assert(first_for(c, n - 1, k, txt(r0)[k])); } }
            else { assert(k == kk && gives(c, n - 1, k)); }
        }
    }
//@end

pub uninterp spec fn storage_for(opts: Txt, h: Txt) -> Option<Storage>;
pub uninterp spec fn file_bytes(st: Storage, path: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn file_bytes_at(st: Storage, path: Seq<char>) -> Option<Seq<u8>>;
impl Storage {
    #[verifier::external_body] pub fn new(o: Arc<VMap<String, String>>, h: Arc<HudiConfigs>) -> (r: core::result::Result<Arc<Storage>, StorageError>) ensures match r { Ok(s) => storage_for(txt(o@), txt(h.raw_options@)) == Some(*s), Err(_) => storage_for(txt(o@), txt(h.raw_options@)) is None } { unimplemented!() }
    #[verifier::external_body] pub fn get_file_data(&self, p: &str) -> (r: core::result::Result<VBytes, StorageError>) ensures match r { Ok(b) => file_bytes(*self, p@) == Some(b@), Err(_) => file_bytes(*self, p@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn get_file_data_from_absolute_path(&self, p: &str) -> (r: core::result::Result<VBytes, StorageError>) ensures match r { Ok(b) => file_bytes_at(*self, p@) == Some(b@), Err(_) => file_bytes_at(*self, p@) is None } { unimplemented!() }
}
/// PathBuf, by its text (made of Strings, so always UTF-8)
pub struct VPathBuf { pub t: String }
pub uninterp spec fn path_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub trait VxPathText: Sized { spec fn pt(self) -> Seq<char>; }
impl VxPathText for String { open spec fn pt(self) -> Seq<char> { self@ } }
impl VxPathText for &str { open spec fn pt(self) -> Seq<char> { self@ } }
impl VPathBuf {
    #[verifier::external_body] pub fn vx_from<S: VxPathText>(s: S) -> (r: VPathBuf) ensures r.t@ == s.pt() { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, o: &str) -> (r: VPathBuf) ensures r.t@ == path_join(self.t@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self.t@ { unimplemented!() }
}
/// the options a file of options gives
pub open spec fn file_options(b: Option<Seq<u8>>, seps: Seq<char>) -> Option<Txt> { match b { Some(x) => if readable(x) { Some(text_options(text_lines(x), seps)) } else { None }, None => None } }
pub open spec fn table_props(st: Storage) -> Option<Txt> { file_options(file_bytes(st, ".hoodie/hoodie.properties"@), "="@) }
pub open spec fn conf_file() -> Seq<char> { path_join(match env_value("HUDI_CONF_DIR"@) { Some(d) => d, None => "/etc/hudi/conf"@ }, "hudi-defaults.conf"@) }
pub open spec fn site_defaults(st: Storage) -> Txt { match file_options(file_bytes_at(st, conf_file()), " \t="@) { Some(m) => only(m, |k: Seq<char>| hoodie(k)), None => Map::empty() } }
/// the entries of a map, as far as they have been gone through
pub open spec fn upto(e: Seq<(String, String)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k }
pub open spec fn entries(e: Seq<(String, String)>, m: Map<Seq<char>, String>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.dom().contains((#[trigger] e[i]).0@) && e[i].1@ == m[e[i].0@]@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> upto(e, e.len() as int, k)
}
pub open spec fn put(e: Seq<(String, String)>, n: int, m: Map<Seq<char>, String>, o: Txt, r: Txt) -> bool { forall|k: Seq<char>| (#[trigger] r.dom().contains(k) <==> o.dom().contains(k) || upto(e, n, k)) && (r.dom().contains(k) ==> r[k] == (if upto(e, n, k) { m[k]@ } else { o[k] })) }
pub open spec fn put_absent(e: Seq<(String, String)>, n: int, m: Map<Seq<char>, String>, o: Txt, r: Txt) -> bool { forall|k: Seq<char>| (#[trigger] r.dom().contains(k) <==> o.dom().contains(k) || (hoodie(k) && upto(e, n, k))) && (r.dom().contains(k) ==> r[k] == (if o.dom().contains(k) { o[k] } else { m[k]@ })) }
//@type crates/core/src/config/mod.rs HUDI_CONF_DIR ensures HUDI_CONF_DIR@ == "HUDI_CONF_DIR"@
//@fn crates/core/src/table/builder.rs TableBuilder::imbue_table_properties
@spec
    ensures match ret { Ok(_) => table_props(*storage) matches Some(p) && txt(final(options)@) =~= over(p, txt(old(options)@)), Err(_) => table_props(*storage) is None }
@loop 0 pre
    let ghost e = vx_it0@; let ghost mut n = 0int; let ghost m = mv(table_properties); let ghost o = txt(old(options)@);
    proof { assert(entries(e, m)) by { assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies upto(e, e.len() as int, k) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(e[i].0@ == k); } } }
@loop 0
    invariant entries(e, m), 0 <= n <= e.len(), vx_it0@ == e.subrange(n, e.len() as int), put(e, n, m, o, txt(options@))
    ensures put(e, e.len() as int, m, o, txt(options@))
    decreases vx_it0@.len()
@loop 0 start
    let ghost x = e[n]; let ghost r0 = txt(options@); proof { n = n + 1; }
@loop 0 end
    proof {
        assert forall|k: Seq<char>| upto(e, n, k) <==> upto(e, n - 1, k) || k == x.0@ by { if k == x.0@ { assert(e[n - 1].0@ == k); } if upto(e, n - 1, k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] e[i]).0@ == k; assert(e[i].0@ == k); } }
        assert(txt(options@) =~= r0.insert(x.0@, x.1@));
    }
//@end
//@fn crates/core/src/table/builder.rs TableBuilder::imbue_global_hudi_configs_if_absent
@rule path env::var vx_env_var
@rule path PathBuf::from VPathBuf::vx_from
@spec
    ensures ret is Ok, txt(final(options)@) =~= over(txt(old(options)@), site_defaults(*storage))
@closure 0
    |e: VVarError| -> (o: VPathBuf) ensures o.t@ == "/etc/hudi/conf"@
@loop 0 pre
    let ghost e = vx_it0@; let ghost mut n = 0int; let ghost m = mv(global_configs); let ghost o = txt(old(options)@);
    proof { assert(entries(e, m)) by { assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies upto(e, e.len() as int, k) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(e[i].0@ == k); } } }
@loop 0
    invariant entries(e, m), 0 <= n <= e.len(), vx_it0@ == e.subrange(n, e.len() as int), put_absent(e, n, m, o, txt(options@))
    ensures put_absent(e, e.len() as int, m, o, txt(options@))
    decreases vx_it0@.len()
@loop 0 start
    let ghost x = e[n]; let ghost r0 = txt(options@); proof { n = n + 1; }
@loop 0 end
    proof {
        assert forall|k: Seq<char>| upto(e, n, k) <==> upto(e, n - 1, k) || k == x.0@ by { if k == x.0@ { assert(e[n - 1].0@ == k); } if upto(e, n - 1, k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] e[i]).0@ == k; assert(e[i].0@ == k); } }
        assert(txt(options@) =~= (if hoodie(x.0@) && !r0.dom().contains(x.0@) { r0.insert(x.0@, x.1@) } else { r0 }));
    }
//@end

pub proof fn lemma_all_given<'a>(e: Seq<(&'a String, &'a String)>, src: Map<Seq<char>, String>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>)
    requires lists::<String, String>(e, src, |k: Seq<char>| true), given(e, p, m), forall|k: Seq<char>| #[trigger] p(k)
    ensures txt(m) == txt(src)
{ lemma_given_map(e, src, p, m); assert(only(txt(src), p) =~= txt(src)); }
//@fn crates/core/src/table/builder.rs TableBuilder::resolve_hudi_options
@spec
    ensures match ret { Ok(_) => storage_for(txt(old(self).storage_options@), txt(old(self).hudi_options@)) matches Some(st) && (table_props(st) matches Some(p) && txt(final(self).hudi_options@) == over(over(p, txt(old(self).hudi_options@)), site_defaults(st))), Err(_) => storage_for(txt(old(self).storage_options@), txt(old(self).hudi_options@)) matches Some(st) ==> table_props(st) is None },
        final(self).base_uri == old(self).base_uri, final(self).options == old(self).options, final(self).storage_options == old(self).storage_options
@start
    proof { assert forall|e: Seq<(&String, &String)>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>| lists::<String, String>(e, self.hudi_options@, |k: Seq<char>| true) && (forall|k: Seq<char>| #[trigger] p(k)) && #[trigger] given(e, p, m) implies txt(m) == txt(self.hudi_options@) by { lemma_all_given(e, self.hudi_options@, p, m); } }
//@end
/// the options a table is read with, and those of its storage
pub open spec fn layers(b: TableBuilder, so: Txt, st: Storage, p: Txt, h: Txt) -> bool {
    cloud_filled(user_storage(b), so) && storage_for(so, user_hudi(b)) == Some(st) && table_props(st) == Some(p) && h == over(over(p, user_hudi(b)), site_defaults(st))
}
pub open spec fn layered(b: TableBuilder, so: Txt, h: Txt) -> bool { storage_for(so, user_hudi(b)) matches Some(st) && (table_props(st) matches Some(p) && layers(b, so, st, p, h)) }
/// the value an option ends up with: hoodie.properties, then what the caller set, then his generic options, then the site's defaults
pub proof fn lemma_precedence(b: TableBuilder, so: Txt, st: Storage, p: Txt, h: Txt, k: Seq<char>)
    requires layers(b, so, st, p, h), k != base_key()
    ensures
        p.dom().contains(k) ==> h.dom().contains(k) && h[k] == p[k],
        !p.dom().contains(k) && b.hudi_options@.dom().contains(k) ==> h.dom().contains(k) && h[k] == b.hudi_options@[k]@,
        !p.dom().contains(k) && !b.hudi_options@.dom().contains(k) && hoodie(k) && b.options@.dom().contains(k) ==> h.dom().contains(k) && h[k] == b.options@[k]@,
        !p.dom().contains(k) && !b.hudi_options@.dom().contains(k) && !(hoodie(k) && b.options@.dom().contains(k)) ==> (h.dom().contains(k) <==> site_defaults(st).dom().contains(k)) && (h.dom().contains(k) ==> hoodie(k) && h[k] == site_defaults(st)[k]),
{ }
/// there is no table to be read at the location the caller gave with these storage options: its storage does not open, or has no readable hoodie.properties
pub open spec fn unreachable_table(b: TableBuilder, so: Txt) -> bool { cloud_filled(user_storage(b), so) && (storage_for(so, user_hudi(b)) matches Some(st) ==> table_props(st) is None) }
//@fn crates/core/src/table/builder.rs TableBuilder::resolve_options
@spec
    ensures match ret { Ok(_) => layered(*old(self), txt(final(self).storage_options@), txt(final(self).hudi_options@)), Err(_) => unreachable_table(*old(self), txt(final(self).storage_options@)) }
//@end
#[verifier::external_body] pub struct Timeline { _p: () }
#[verifier::external_body] pub struct FileSystemView { _p: () }
/// the timeline and the view of the table with these options (None: they cannot be loaded); their functions are under contract in units timeline and table
pub uninterp spec fn timeline_of(h: Txt, o: Txt) -> Option<Timeline>;
pub uninterp spec fn view_of(h: Txt, o: Txt) -> Option<FileSystemView>;
impl Timeline { #[verifier::external_body] pub fn new_from_storage(h: Arc<HudiConfigs>, o: Arc<VMap<String, String>>) -> (r: Result<Timeline>) ensures match r { Ok(t) => timeline_of(txt(h.raw_options@), txt(o@)) == Some(t), Err(_) => timeline_of(txt(h.raw_options@), txt(o@)) is None } { unimplemented!() } }
impl FileSystemView { #[verifier::external_body] pub fn new(h: Arc<HudiConfigs>, o: Arc<VMap<String, String>>) -> (r: Result<FileSystemView>) ensures match r { Ok(t) => view_of(txt(h.raw_options@), txt(o@)) == Some(t), Err(_) => view_of(txt(h.raw_options@), txt(o@)) is None } { unimplemented!() } }
//@type crates/core/src/table/mod.rs Table
pub proof fn lemma_accepted_texts(a: Map<Seq<char>, String>, b: Map<Seq<char>, String>)
    requires txt(a) == txt(b) ensures accepted(a) == accepted(b)
{
    assert forall|k: Seq<char>| a.dom().contains(k) == #[trigger] b.dom().contains(k) && (b.dom().contains(k) ==> a[k]@ == b[k]@) by { assert(txt(a).dom().contains(k) == txt(b).dom().contains(k)); if b.dom().contains(k) { assert(txt(a)[k] == txt(b)[k]); } }
    assert forall|c: HudiTableConfig| #[trigger] table_ok(c, a) == table_ok(c, b) by {}
    assert forall|c: HudiReadConfig| #[trigger] read_ok(c, a) == read_ok(c, b) by {}
    assert(merge_of(a) == merge_of(b)); assert(merge_ok(a) == merge_ok(b));
    if accepted(a) && !skips(a) { assert forall|c: HudiTableConfig| #[trigger] table_ok(c, b) by { assert(table_ok(c, a)); } assert forall|c: HudiReadConfig| #[trigger] read_ok(c, b) by { assert(read_ok(c, a)); } }
    if accepted(b) && !skips(b) { assert forall|c: HudiTableConfig| #[trigger] table_ok(c, a) by { assert(table_ok(c, b)); } assert forall|c: HudiReadConfig| #[trigger] read_ok(c, a) by { assert(read_ok(c, b)); } }
}
/// t is the table at the location the caller gave: its options are in order, and its timeline and view are loaded with the options it keeps
pub open spec fn built(b: TableBuilder, t: Table) -> bool {
    let so = txt(t.storage_options@); let h = txt(t.hudi_configs.raw_options@);
    accepted(t.hudi_configs.raw_options@) && layered(b, so, h) && timeline_of(h, so) == Some(t.timeline) && view_of(h, so) == Some(t.file_system_view)
}
/// what keeps a table from being built: it cannot be reached, its options are refused, or its timeline or view cannot be loaded
pub open spec fn unbuildable(b: TableBuilder, so: Txt, h: Map<Seq<char>, String>) -> bool {
    unreachable_table(b, so) || (layered(b, so, txt(h)) && (!accepted(h) || timeline_of(txt(h), so) is None || view_of(txt(h), so) is None))
}
//@fn crates/core/src/table/builder.rs TableBuilder::build
@rule path Arc::from Arc::new
@after let hudi_configs
    proof { lemma_accepted_texts(hudi_configs.raw_options@, self.hudi_options@); }
@spec
    ensures match ret { Ok(t) => built(*old(self), t), Err(_) => unbuildable(*old(self), txt(final(self).storage_options@), final(self).hudi_options@) }
@before let hudi_configs
    proof { assert forall|e: Seq<(&String, &String)>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>| lists::<String, String>(e, self.hudi_options@, |k: Seq<char>| true) && (forall|k: Seq<char>| #[trigger] p(k)) && #[trigger] given(e, p, m) implies txt(m) == txt(self.hudi_options@) by { lemma_all_given(e, self.hudi_options@, p, m); } }
//@end
//@prop C17 C12
// ---- the options a slice is read with ---------------------------------------------------------------------
//@type crates/core/src/file_group/reader.rs FileGroupReader
impl VMap<String, String> { #[verifier::external_body] pub fn vx_extend(&mut self, o: VMap<String, String>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() /* self.extend(o) */ } }
/// a reader with these hoodie options over h's, and the others for its storage
pub open spec fn reader_of(rd: FileGroupReader, ho: Txt, ot: Txt, h: Txt) -> bool { txt(rd.hudi_configs.raw_options@) == over(ho, h) && storage_for(ot, over(ho, h)) == Some(*rd.storage) }
/// .. made of the options given: the hoodie ones override h's
pub open spec fn read_with<K: VxAsStr, V: VxIntoStr>(rd: FileGroupReader, e: Seq<(K, V)>, h: Txt) -> bool {
    exists|ho: Map<Seq<char>, String>, ot: Map<Seq<char>, String>| #[trigger] reader_of(rd, txt(ho), txt(ot), h) && given(e, |k: Seq<char>| hoodie(k), ho) && given(e, |k: Seq<char>| !hoodie(k), ot)
}
/// the storage does not open with these options
pub open spec fn no_storage(ho: Txt, ot: Txt, h: Txt) -> bool { storage_for(ot, over(ho, h)) is None }
pub open spec fn unopenable<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, h: Txt) -> bool {
    exists|ho: Map<Seq<char>, String>, ot: Map<Seq<char>, String>| #[trigger] no_storage(txt(ho), txt(ot), h) && given(e, |k: Seq<char>| hoodie(k), ho) && given(e, |k: Seq<char>| !hoodie(k), ot)
}
//@fn crates/core/src/file_group/reader.rs FileGroupReader::new_with_configs_and_options
@rule method extend vx_extend
@spec
    ensures match ret { Ok(rd) => read_with(rd, options.items(), txt(hudi_configs.raw_options@)), Err(_) => unopenable(options.items(), txt(hudi_configs.raw_options@)) }
@after let (hudi_opts
    let ghost ho = mv(hudi_opts); let ghost ot = mv(others);
@before let hudi_configs
    let ghost fo = mv(final_opts); let ghost h0 = txt(hudi_configs.raw_options@); let ghost fv = final_opts;
    proof { assert(txt(fo) =~= over(txt(ho), h0)); }
@before let storage
    proof { lemma_owned_given(fv, hudi_configs.raw_options@); assert(no_storage(txt(ho), txt(ot), h0) <==> storage_for(txt(ot), txt(hudi_configs.raw_options@)) is None); }
@before Ok(Self
    proof { assert(reader_of(FileGroupReader { hudi_configs, storage }, txt(ho), txt(ot), h0)); }
//@end
/// the entries of a map, given as options, give the map
pub proof fn lemma_owned_only(v: VMap<String, String>, p: spec_fn(Seq<char>) -> bool, m: Map<Seq<char>, String>)
    requires given(v.items(), p, m) ensures txt(m) == only(txt(v@), p)
{
    broadcast use ax_map_items;
    let e = v.items();
    assert forall|k: Seq<char>| v@.dom().contains(k) && p(k) implies #[trigger] m.dom().contains(k) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(e[i].0.text() == k); }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies v@.dom().contains(k) && p(k) && m[k]@ == v@[k]@ by { let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && last_at(e, k, m[k]@, i); assert(e[i].0.k() == k); }
    assert(txt(m) =~= only(txt(v@), p));
}
pub proof fn lemma_owned_given(v: VMap<String, String>, m: Map<Seq<char>, String>)
    requires given(v.items(), |k: Seq<char>| true, m) ensures txt(m) == txt(v@)
{ lemma_owned_only(v, |k: Seq<char>| true, m); assert(only(txt(v@), |k: Seq<char>| true) =~= txt(v@)); }
//@fn crates/core/src/file_group/reader.rs FileGroupReader::new_with_options
@spec
    ensures match ret { Ok(rd) => read_with(rd, options.items(), Map::<Seq<char>, Seq<char>>::empty().insert(base_key(), base_uri@)), Err(_) => unopenable(options.items(), Map::<Seq<char>, Seq<char>>::empty().insert(base_key(), base_uri@)) }
@before Self::new_with
    proof { assert forall|e: [(String, String); 1], m: Map<Seq<char>, String>| e@[0].0@ == base_key() && #[trigger] given_all(e@, m) implies txt(m) == Map::<Seq<char>, Seq<char>>::empty().insert(base_key(), e@[0].1@) by {
        assert(m.dom().contains(e@[0].0.text()));
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies k == base_key() && m[k]@ == e@[0].1@ by { let i = choose|i: int| #![trigger e@[i]] 0 <= i < e@.len() && last_at(e@, k, m[k]@, i); assert(e@[i] == e@[0]); }
        assert(txt(m) =~= Map::<Seq<char>, Seq<char>>::empty().insert(base_key(), e@[0].1@)); } }
//@end
/// the options given, and the table's for its storage where they say nothing
pub open spec fn table_reader<K: VxAsStr, V: VxIntoStr>(rd: FileGroupReader, e: Seq<(K, V)>, so: Txt, h: Txt) -> bool { exists|gv: Map<Seq<char>, String>| #[trigger] given_all(e, gv) && read_over(rd, over(txt(gv), so), h) }
pub open spec fn read_over(rd: FileGroupReader, o: Txt, h: Txt) -> bool { reader_of(rd, only(o, |k: Seq<char>| hoodie(k)), only(o, |k: Seq<char>| !hoodie(k)), h) }
pub open spec fn no_table_reader<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, so: Txt, h: Txt) -> bool { exists|gv: Map<Seq<char>, String>| #[trigger] given_all(e, gv) && no_storage_over(over(txt(gv), so), h) }
pub open spec fn no_storage_over(o: Txt, h: Txt) -> bool { no_storage(only(o, |k: Seq<char>| hoodie(k)), only(o, |k: Seq<char>| !hoodie(k)), h) }
//@fn crates/core/src/table/mod.rs Table::create_file_group_reader_with_options
@spec
    ensures match ret { Ok(rd) => table_reader(rd, options.items(), txt(self.storage_options@), txt(self.hudi_configs.raw_options@)), Err(_) => no_table_reader(options.items(), txt(self.storage_options@), txt(self.hudi_configs.raw_options@)) }
@loop 0 pre
    let ghost so = self.storage_options@; let ghost e0 = vx_it0@; let ghost mut n = 0int;
@loop 0
    invariant 0 <= n <= e0.len(), vx_it0@ == e0.subrange(n, e0.len() as int), lists::<String, String>(e0, so, |k: Seq<char>| true), put_refs(e0, n, so, txt(overwriting_options@))
    ensures put_refs(e0, e0.len() as int, so, txt(overwriting_options@))
    decreases vx_it0@.len()
@loop 0 start
    let ghost x = e0[n]; let ghost r0 = txt(overwriting_options@); proof { n = n + 1; }
@loop 0 end
    proof {
        assert forall|k: Seq<char>| upto_refs(e0, n, k) <==> upto_refs(e0, n - 1, k) || k == x.0@ by { if k == x.0@ { assert(e0[n - 1].0@ == k); } if upto_refs(e0, n - 1, k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] e0[i]).0@ == k; assert(e0[i].0@ == k); } }
        assert(txt(overwriting_options@) =~= r0.insert(x.0@, x.1@));
    }
@loop 1 pre
    let ghost st = txt(self.storage_options@);
    proof { assert(txt(overwriting_options@) =~= st) by { assert forall|k: Seq<char>| self.storage_options@.dom().contains(k) implies #[trigger] txt(overwriting_options@).dom().contains(k) by { } } }
    let ghost all = vx_it1@; let ghost mut q = 0int; let ghost mut gv = Map::<Seq<char>, String>::empty();
    proof { assert(all.subrange(0, all.len() as int) =~= all); assert(txt(overwriting_options@) =~= over(txt(gv), st)); }
@loop 1
    invariant all == options.items(), all.subrange(0, all.len() as int) == all, 0 <= q <= all.len(), vx_it1@ == all.subrange(q, all.len() as int), given_all(all.subrange(0, q), gv), txt(overwriting_options@) == over(txt(gv), st)
    ensures given_all(all, gv), txt(overwriting_options@) == over(txt(gv), st)
    decreases vx_it1@.len()
@loop 1 start
    let ghost y = all[q]; let ghost o0 = txt(overwriting_options@); let ghost g0 = gv;
@loop 1 end
    proof {
        let w = overwriting_options@[y.0.text()];
        assert(all.subrange(0, q + 1) =~= all.subrange(0, q).push(y));
        gv = g0.insert(y.0.text(), w);
        lemma_given_push(all.subrange(0, q), |k: Seq<char>| true, g0, y, w, gv);
        assert(txt(overwriting_options@) =~= o0.insert(y.0.text(), w@));
        assert(txt(gv) =~= txt(g0).insert(y.0.text(), w@));
        assert(txt(overwriting_options@) =~= over(txt(gv), st));
        q = q + 1;
        if q == all.len() { assert(all.subrange(0, q) =~= all); }
    }
@loop 1 post
    proof {
        let vm = overwriting_options; let o = txt(vm@); assert(given_all(all, gv)); assert(o == over(txt(gv), st));
        assert forall|rd: FileGroupReader, h: Txt| #[trigger] read_with(rd, vm.items(), h) implies read_over(rd, o, h) by {
            let (ho, ot) = choose|ho: Map<Seq<char>, String>, ot: Map<Seq<char>, String>| #[trigger] reader_of(rd, txt(ho), txt(ot), h) && given(vm.items(), |k: Seq<char>| hoodie(k), ho) && given(vm.items(), |k: Seq<char>| !hoodie(k), ot);
            lemma_owned_only(vm, |k: Seq<char>| hoodie(k), ho); lemma_owned_only(vm, |k: Seq<char>| !hoodie(k), ot);
        }
        assert forall|h: Txt| #[trigger] unopenable(vm.items(), h) implies no_storage_over(o, h) by {
            let (ho, ot) = choose|ho: Map<Seq<char>, String>, ot: Map<Seq<char>, String>| #[trigger] no_storage(txt(ho), txt(ot), h) && given(vm.items(), |k: Seq<char>| hoodie(k), ho) && given(vm.items(), |k: Seq<char>| !hoodie(k), ot);
            lemma_owned_only(vm, |k: Seq<char>| hoodie(k), ho); lemma_owned_only(vm, |k: Seq<char>| !hoodie(k), ot);
        }
    }
//@end
pub open spec fn upto_refs(e: Seq<(&String, &String)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k }
pub open spec fn put_refs(e: Seq<(&String, &String)>, n: int, m: Map<Seq<char>, String>, r: Txt) -> bool { forall|k: Seq<char>| (#[trigger] r.dom().contains(k) <==> upto_refs(e, n, k)) && (r.dom().contains(k) ==> r[k] == m[k]@) }
//@prop C17
// ---- opening a table ------------------------------------------------------------------------------------------
/// HashMap::extend: the entries of o, the last given for a key, over those there
pub open spec fn overlaid(m: Map<Seq<char>, String>, e: Seq<(String, String)>, r: Map<Seq<char>, String>) -> bool { exists|x: Map<Seq<char>, String>| #[trigger] map_of(e, x) && r == m.union_prefer_right(x) }
impl VMap<String, String> { #[verifier::external_body] pub fn vx_extend_with<I: VxIntoIterator<Item = (String, String)>>(&mut self, o: I) ensures overlaid(old(self)@, o.items(), final(self)@) { unimplemented!() /* self.extend(o) */ } }
/// the entries given as options, in their order
pub open spec fn as_given<K: VxAsStr, V: VxIntoStr>(e: Seq<(K, V)>, t: Seq<(String, String)>) -> bool { t.len() == e.len() && forall|i: int| #![trigger t[i]] #![trigger e[i]] 0 <= i < e.len() ==> t[i].0@ == e[i].0.text() && t[i].1@ == e[i].1.text() }
/// r is m with the options given over it
pub open spec fn with_given<K: VxAsStr, V: VxIntoStr>(m: Map<Seq<char>, String>, e: Seq<(K, V)>, r: Map<Seq<char>, String>) -> bool { exists|gv: Map<Seq<char>, String>| #[trigger] given_all(e, gv) && r == m.union_prefer_right(gv) }
pub proof fn lemma_with_given<K: VxAsStr, V: VxIntoStr>(m: Map<Seq<char>, String>, e: Seq<(K, V)>, t: Seq<(String, String)>, r: Map<Seq<char>, String>)
    requires as_given(e, t), overlaid(m, t, r) ensures with_given(m, e, r)
{
    let x = choose|x: Map<Seq<char>, String>| #[trigger] map_of(t, x) && r == m.union_prefer_right(x);
    assert forall|i: int| 0 <= i < e.len() implies x.dom().contains((#[trigger] e[i]).0.text()) by { assert(x.dom().contains(t[i].0.k())); }
    assert forall|k: Seq<char>| #[trigger] x.dom().contains(k) implies given_last(e, k, x[k]@) by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.k() == k && x[k] == t[i].1 && forall|j: int| i < j < t.len() ==> (#[trigger] t[j]).0.k() != k;
        assert forall|j: int| i < j < e.len() implies (#[trigger] e[j]).0.text() != k by { assert(t[j].0.k() != k); }
        assert(last_at(e, k, x[k]@, i));
    }
    assert(given_all(e, x));
}
//@fn crates/core/src/table/builder.rs TableBuilder::from_base_uri
@spec
    ensures ret.base_uri@ == base_uri@, ret.hudi_options@ == Map::<Seq<char>, String>::empty(), ret.storage_options@ == Map::<Seq<char>, String>::empty(), ret.options@ == Map::<Seq<char>, String>::empty()
//@end
/// an option set over those there
pub open spec fn with_one(m: Map<Seq<char>, String>, k: Seq<char>, v: Seq<char>, r: Map<Seq<char>, String>) -> bool { r.dom().contains(k) && r[k]@ == v && r == m.insert(k, r[k]) }
//@fn crates/core/src/table/builder.rs TableBuilder::with_hudi_option
@spec
    ensures with_one(self.hudi_options@, k.text(), v.text(), ret.hudi_options@), ret.base_uri == self.base_uri, ret.storage_options == self.storage_options, ret.options == self.options
//@end
//@fn crates/core/src/table/builder.rs TableBuilder::with_hudi_options
@rule method extend vx_extend_with
@spec
    ensures with_given(self.hudi_options@, options.items(), ret.hudi_options@), ret.base_uri == self.base_uri, ret.storage_options == self.storage_options, ret.options == self.options
@start
    proof { assert forall|t: Seq<(String, String)>, m: Map<Seq<char>, String>, r: Map<Seq<char>, String>| as_given(options.items(), t) && #[trigger] overlaid(m, t, r) implies with_given(m, options.items(), r) by { lemma_with_given(m, options.items(), t, r); } }
@closure 0
    |$1: (K, V)| -> (o: (String, String)) ensures o.0@ == $1.0.text(), o.1@ == $1.1.text()
//@end
//@fn crates/core/src/table/builder.rs TableBuilder::with_storage_option
@spec
    ensures with_one(self.storage_options@, k.text(), v.text(), ret.storage_options@), ret.base_uri == self.base_uri, ret.hudi_options == self.hudi_options, ret.options == self.options
//@end
//@fn crates/core/src/table/builder.rs TableBuilder::with_storage_options
@rule method extend vx_extend_with
@spec
    ensures with_given(self.storage_options@, options.items(), ret.storage_options@), ret.base_uri == self.base_uri, ret.hudi_options == self.hudi_options, ret.options == self.options
@start
    proof { assert forall|t: Seq<(String, String)>, m: Map<Seq<char>, String>, r: Map<Seq<char>, String>| as_given(options.items(), t) && #[trigger] overlaid(m, t, r) implies with_given(m, options.items(), r) by { lemma_with_given(m, options.items(), t, r); } }
@closure 0
    |$1: (K, V)| -> (o: (String, String)) ensures o.0@ == $1.0.text(), o.1@ == $1.1.text()
//@end
//@fn crates/core/src/table/builder.rs TableBuilder::with_option
@spec
    ensures with_one(self.options@, k.text(), v.text(), ret.options@), ret.base_uri == self.base_uri, ret.hudi_options == self.hudi_options, ret.storage_options == self.storage_options
//@end
//@fn crates/core/src/table/builder.rs TableBuilder::with_options
@rule method extend vx_extend_with
@spec
    ensures with_given(self.options@, options.items(), ret.options@), ret.base_uri == self.base_uri, ret.hudi_options == self.hudi_options, ret.storage_options == self.storage_options
@start
    proof { assert forall|t: Seq<(String, String)>, m: Map<Seq<char>, String>, r: Map<Seq<char>, String>| as_given(options.items(), t) && #[trigger] overlaid(m, t, r) implies with_given(m, options.items(), r) by { lemma_with_given(m, options.items(), t, r); } }
@closure 0
    |$1: (K, V)| -> (o: (String, String)) ensures o.0@ == $1.0.text(), o.1@ == $1.1.text()
//@end

/// a builder for the table at u, given the generic options e and nothing else
pub open spec fn asked<K: VxAsStr, V: VxIntoStr>(u: Seq<char>, e: Seq<(K, V)>, b: TableBuilder) -> bool { b.base_uri@ == u && b.hudi_options@ == Map::<Seq<char>, String>::empty() && b.storage_options@ == Map::<Seq<char>, String>::empty() && given_all(e, b.options@) }
pub open spec fn asked_none(u: Seq<char>, b: TableBuilder) -> bool { b.base_uri@ == u && b.hudi_options@ == Map::<Seq<char>, String>::empty() && b.storage_options@ == Map::<Seq<char>, String>::empty() && b.options@ == Map::<Seq<char>, String>::empty() }
/// t is the table at u opened with the options e; it cannot be opened with them
pub open spec fn opened<K: VxAsStr, V: VxIntoStr>(u: Seq<char>, e: Seq<(K, V)>, t: Table) -> bool { exists|b: TableBuilder| asked(u, e, b) && #[trigger] built(b, t) }
pub open spec fn unopened<K: VxAsStr, V: VxIntoStr>(u: Seq<char>, e: Seq<(K, V)>) -> bool { exists|b: TableBuilder, so: Txt, h: Map<Seq<char>, String>| asked(u, e, b) && #[trigger] unbuildable(b, so, h) }
//@fn crates/core/src/table/mod.rs Table::new
@spec
    ensures match ret { Ok(t) => exists|b: TableBuilder| asked_none(base_uri@, b) && #[trigger] built(b, t), Err(_) => exists|b: TableBuilder, so: Txt, h: Map<Seq<char>, String>| asked_none(base_uri@, b) && #[trigger] unbuildable(b, so, h) }
//@end
//@fn crates/core/src/table/mod.rs Table::new_with_options
@spec
    ensures match ret { Ok(t) => opened(base_uri@, options.items(), t), Err(_) => unopened(base_uri@, options.items()) }
@start
    proof { assert forall|r: Map<Seq<char>, String>| #[trigger] with_given(Map::<Seq<char>, String>::empty(), options.items(), r) implies given_all(options.items(), r) by { let gv = choose|gv: Map<Seq<char>, String>| #[trigger] given_all(options.items(), gv) && r == Map::<Seq<char>, String>::empty().union_prefer_right(gv); assert(r =~= gv); } }
//@end

// .. from DataFusion
//@rule path Result DfResult
//@rule path HudiTable Table
//@rule path Execution vx_execution
#[verifier::external_body] pub struct DataFusionError { _p: () }
pub type DfResult<T> = core::result::Result<T, DataFusionError>;
#[verifier::external_body] pub fn vx_execution(s: String) -> (r: DataFusionError) { unimplemented!() /* DataFusionError::Execution(s) */ }
//@type crates/datafusion/src/lib.rs HudiDataSource
//@fn crates/datafusion/src/lib.rs HudiDataSource::new_with_options
@rule opaque_fmt
@spec
    ensures match ret { Ok(s) => opened(base_uri@, options.items(), *s.table), Err(_) => unopened(base_uri@, options.items()) }
//@end
#[verifier::external_body] pub fn empty_options() -> (r: VIter<(&'static str, &'static str)>) ensures r@.len() == 0 { unimplemented!() /* std::iter::empty() */ }
//@fn crates/datafusion/src/lib.rs HudiDataSource::new
@spec
    ensures match ret { Ok(s) => opened(base_uri@, Seq::<(&str, &str)>::empty(), *s.table), Err(_) => unopened(base_uri@, Seq::<(&str, &str)>::empty()) }
@start
    proof { assert forall|s: Seq<(&str, &str)>| s.len() == 0 implies s == Seq::<(&str, &str)>::empty() by { assert(s =~= Seq::<(&str, &str)>::empty()); } }
//@end
/// the session's settings, and the command CREATE EXTERNAL TABLE
pub struct ConfigEntry { pub key: String, pub value: Option<String> }
pub struct VConfigOptions { pub e: Vec<ConfigEntry> }
impl VConfigOptions { #[verifier::external_body] pub fn entries(&self) -> (r: Vec<ConfigEntry>) ensures r@ == self.e@ { unimplemented!() } }
pub struct VSession { pub c: VConfigOptions }
impl VSession { pub fn config_options(&self) -> (r: &VConfigOptions) ensures *r == self.c { &self.c } }
pub struct CreateExternalTable { pub location: String, pub options: VMap<String, String> }
/// entry i sets the option k; the session sets k to v
pub open spec fn sets(x: ConfigEntry, k: Seq<char>) -> bool { x.key@ == k && (x.value matches Some(v) && v@.len() > 0) }
pub open spec fn set_last(e: Seq<ConfigEntry>, i: int, k: Seq<char>, v: Seq<char>) -> bool { sets(e[i], k) && e[i].value->Some_0@ == v && forall|j: int| i < j < e.len() ==> !sets(#[trigger] e[j], k) }
pub open spec fn session_sets(e: Seq<ConfigEntry>, k: Seq<char>, v: Seq<char>) -> bool { exists|i: int| #![trigger e[i]] 0 <= i < e.len() && set_last(e, i, k, v) }
pub open spec fn session_has(e: Seq<ConfigEntry>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < e.len() && sets(#[trigger] e[i], k) }
/// the options a table is created with in SQL: the command's, over the session's
pub open spec fn sql_options(e: Seq<ConfigEntry>, c: Txt, r: Txt) -> bool {
    forall|k: Seq<char>| (#[trigger] r.dom().contains(k) <==> c.dom().contains(k) || session_has(e, k)) && (r.dom().contains(k) ==> if c.dom().contains(k) { r[k] == c[k] } else { session_sets(e, k, r[k]) })
}
/// the items of a filter_map: those for which the closure gives something, in their order
pub open spec fn kept<T, U, F: Fn(T) -> Option<U>>(s: Seq<T>, f: F, r: Seq<U>, at: Seq<int>) -> bool {
    &&& at.len() == r.len() && forall|q: int| #![trigger at[q]] #![trigger r[q]] 0 <= q < r.len() ==> 0 <= at[q] < s.len() && f.ensures((s[at[q]],), Some(r[q]))
    &&& forall|p: int, q: int| 0 <= p < q < at.len() ==> #[trigger] at[p] < #[trigger] at[q]
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] s[i],), None::<U>) || at.contains(i)
}
impl<T> VIter<T> {
    #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|at: Seq<int>| #[trigger] kept(self@, f, r@, at) { unimplemented!() }
}
//@rule path HashMap<_,_> VMap<String,String>
pub struct HudiTableFactory { }
pub trait VxOptFilter<T>: Sized { spec fn o(self) -> Option<T>; fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) requires self.o() matches Some(x) ==> f.requires((&x,)) ensures match self.o() { None => r is None, Some(x) => match r { Some(y) => y == x && f.ensures((&x,), true), None => f.ensures((&x,), false) } }; }
impl<T> VxOptFilter<T> for Option<T> { open spec fn o(self) -> Option<T> { self } #[verifier::external_body] fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() /* self.filter(f) */ } }
//@fn crates/datafusion/src/lib.rs HudiTableFactory::resolve_options
@rule method filter vx_filter
@rule path dynSession VSession
@rule method extend vx_extend_with
@spec
    ensures ret matches Ok(m) && sql_options(state.c.e@, txt(cmd.options@), txt(m@))
@closure 0
    |e: &ConfigEntry| -> (o: Option<(String, String)>) ensures match o { Some(x) => sets(*e, x.0@) && e.value->Some_0@ == x.1@, None => forall|k: Seq<char>| !sets(*e, k) }
@closure 1
    |v: &&String| -> (o: bool) ensures o == (v@.len() > 0)
@closure 2
    |$1: (&String, &String)| -> (o: (String, String)) ensures o.0@ == $1.0@, o.1@ == $1.1@
//@end
//@fn crates/datafusion/src/lib.rs TableProviderFactory for HudiTableFactory::create
@rule path dynSession VSession
@rule path dynTableProvider HudiDataSource
@after let options
    proof { assert(map_of(options.items(), mv(options))); }
@spec
    ensures match ret { Ok(p) => exists|r: Map<Seq<char>, String>, e: Seq<(String, String)>| #[trigger] map_of(e, r) && sql_options(state.c.e@, txt(cmd.options@), txt(r)) && opened(cmd.location@, e, *p.table),
        Err(_) => exists|r: Map<Seq<char>, String>, e: Seq<(String, String)>| #[trigger] map_of(e, r) && sql_options(state.c.e@, txt(cmd.options@), txt(r)) && unopened(cmd.location@, e) }
//@end
}
