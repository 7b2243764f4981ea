// ---- configuration, as the code that reads options sees it (the functions themselves: config unit) ----
verus! {
//@type crates/core/src/config/table.rs HudiTableConfig structural
//@type crates/core/src/config/mod.rs HudiConfigValue
pub use HudiTableConfig::*;
#[verifier::external_body] pub struct HudiConfigs { _p: () }
/// the value an option is set to, when it is set and well-formed
pub uninterp spec fn cfg_try(h: HudiConfigs, c: HudiTableConfig) -> Option<HudiConfigValue>;
pub uninterp spec fn cfg_default(c: HudiTableConfig) -> Option<HudiConfigValue>;
pub open spec fn cfg_bool(c: HudiTableConfig) -> bool { c == HudiTableConfig::IsHiveStylePartitioning || c == HudiTableConfig::IsPartitionPathUrlencoded || c == HudiTableConfig::PopulatesMetaFields || c == HudiTableConfig::DropsPartitionFields }
pub open spec fn cfg_list(c: HudiTableConfig) -> bool { c == HudiTableConfig::PartitionFields || c == HudiTableConfig::RecordKeyFields }
pub open spec fn kind_ok(c: HudiTableConfig, v: HudiConfigValue) -> bool { (cfg_bool(c) ==> v is Boolean) && (cfg_list(c) ==> v is List) && (c == HudiTableConfig::KeyGeneratorClass || c == HudiTableConfig::PrecombineField || c == HudiTableConfig::TimelineTimezone ==> v is String) }
impl HudiConfigs {
    #[verifier::external_body] pub fn try_get(&self, c: HudiTableConfig) -> (r: Option<HudiConfigValue>) ensures r == cfg_try(*self, c), r matches Some(v) ==> kind_ok(c, v) { unimplemented!() }
    #[verifier::external_body] pub fn get_or_default(&self, c: HudiTableConfig) -> (r: HudiConfigValue) requires cfg_default(c) is Some
        ensures kind_ok(c, r), r == (match cfg_try(*self, c) { Some(v) => v, None => cfg_default(c)->Some_0 }) { unimplemented!() }
}
pub broadcast axiom fn ax_default_fields() ensures (#[trigger] cfg_default(HudiTableConfig::PartitionFields)) matches Some(HudiConfigValue::List(l)) && l@.len() == 0;
pub trait VxCfgTo: Sized { spec fn can(v: HudiConfigValue) -> bool; spec fn is(v: HudiConfigValue, r: Self) -> bool; }
impl VxCfgTo for bool { open spec fn can(v: HudiConfigValue) -> bool { v is Boolean } open spec fn is(v: HudiConfigValue, r: bool) -> bool { v == HudiConfigValue::Boolean(r) } }
impl VxCfgTo for Vec<String> { open spec fn can(v: HudiConfigValue) -> bool { v is List } open spec fn is(v: HudiConfigValue, r: Vec<String>) -> bool { v == HudiConfigValue::List(r) } }
impl VxCfgTo for String { open spec fn can(v: HudiConfigValue) -> bool { v is String } open spec fn is(v: HudiConfigValue, r: String) -> bool { v == HudiConfigValue::String(r) } }
impl HudiConfigValue { #[verifier::external_body] pub fn to<T: VxCfgTo>(self) -> (r: T) requires T::can(self) ensures T::is(self, r) { unimplemented!() } }
/// the fields a table is partitioned by
pub open spec fn partition_fields(h: HudiConfigs) -> Seq<String> { match cfg_try(h, HudiTableConfig::PartitionFields) { Some(v) => v->List_0@, None => Seq::empty() } }
}
