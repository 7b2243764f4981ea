//@include prelude.rs
//@include chrono.rs
//@include error.rs
verus! {
//@rule method split_once vx_split_once
//@rule method iter vx_iter
//@rule method chars vx_chars
//@rule path DateTime<Utc> DateTimeUtc
//@rule path DateTime DateTimeUtc
//@rule opaque_fmt
//@type crates/core/src/timeline/instant.rs Action structural
//@type crates/core/src/timeline/instant.rs State structural ord
//@type crates/core/src/timeline/instant.rs Instant clone

//@prop C01
// ---- the property's vocabulary -------------------------------------------------------------
pub open spec fn action_name(a: Action) -> Seq<char> {
    match a { Action::Commit => "commit"@, Action::DeltaCommit => "deltacommit"@, Action::ReplaceCommit => "replacecommit"@ }
}
pub open spec fn state_name(s: State) -> Seq<char> {
    match s { State::Requested => "requested"@, State::Inflight => "inflight"@, State::Completed => ""@ }
}
/// what a file name says after its timestamp
pub open spec fn suffix_of(a: Action, s: State) -> Seq<char> {
    if s == State::Completed { action_name(a) }
    else if a == Action::Commit && s == State::Inflight { "inflight"@ }
    else { action_name(a) + seq!['.'] + state_name(s) }
}
pub proof fn names_distinct()
    ensures
        forall|a: Action, b: Action| #[trigger] action_name(a) == #[trigger] action_name(b) ==> a == b,
        forall|a: State, b: State| #[trigger] state_name(a) == #[trigger] state_name(b) ==> a == b,
        forall|a: Action| #[trigger] action_name(a) != "inflight"@,
        forall|a: Action| !(#[trigger] action_name(a)).contains('.'),
        !"inflight"@.contains('.'),
{
    reveal_strlit("commit"); reveal_strlit("deltacommit"); reveal_strlit("replacecommit");
    reveal_strlit("requested"); reveal_strlit("inflight"); reveal_strlit("");
    assert("commit"@[0] == 'c'); assert("deltacommit"@[0] == 'd'); assert("replacecommit"@[0] == 'r');
    assert("requested"@[0] == 'r'); assert("inflight"@[0] == 'i');
    assert("requested"@[2] == 'q'); assert("replacecommit"@[2] == 'p');
}

//@fn crates/core/src/timeline/instant.rs FromStr for Action::from_str
@spec
    ensures match ret { Ok(a) => s@ == action_name(a), Err(_) => forall|a: Action| s@ != #[trigger] action_name(a) }
//@end
//@fn crates/core/src/timeline/instant.rs AsRef<str> for Action::as_ref
@spec
    ensures ret@ == action_name(*self)
//@end
//@fn crates/core/src/timeline/instant.rs FromStr for State::from_str
@ret ret
@spec
    ensures match ret { Ok(a) => suffix@ == state_name(a), Err(_) => forall|a: State| suffix@ != #[trigger] state_name(a) }
//@end
//@fn crates/core/src/timeline/instant.rs AsRef<str> for State::as_ref
@spec
    ensures ret@ == state_name(*self)
//@end
//@fn crates/core/src/timeline/instant.rs Instant::parse_action_and_state
@spec
    ensures
        // a completed or commit-inflight suffix is accepted exactly as written
        match ret {
            Ok((a, s)) => action_suffix@ == suffix_of(a, s) || (a == Action::Commit && s == State::Inflight && action_suffix@ == "commit"@ + seq!['.'] + "inflight"@),
            Err(_) => forall|a: Action, s: State| action_suffix@ != #[trigger] suffix_of(a, s),
        }
@start
    proof {
        names_distinct();
        // the two-part reading of any suffix is unique
        assert forall|a: Action, s: State, x: Seq<char>, y: Seq<char>| #![trigger suffix_of(a, s), x + seq!['.'] + y]
            action_suffix@ == suffix_of(a, s) && action_suffix@ == x + seq!['.'] + y && !x.contains('.')
            implies x == action_name(a) && y == state_name(s) && s != State::Completed by {
            lemma_contains_mid(x, y, '.');
            lemma_split_unique(x, y, action_name(a), state_name(s), '.');
        }
        assert forall|a: Action, s: State| #![trigger suffix_of(a, s)]
            action_suffix@ == suffix_of(a, s) && !action_suffix@.contains('.')
            implies (s == State::Completed || (a == Action::Commit && s == State::Inflight)) by {
            lemma_contains_mid(action_name(a), state_name(s), '.');
        }
        assert(forall|s: State| s != State::Completed ==> #[trigger] state_name(s).len() > 0) by { reveal_strlit("requested"); reveal_strlit("inflight"); }
        reveal_strlit("");
    }
//@end

//@prop C01
// ---- timestamps ------------------------------------------------------------------------------
pub open spec fn valid_ts(t: Seq<char>) -> bool { (t.len() == 14 || t.len() == 17) && digits(t) }
/// the civil time a timestamp names: the first 14 digits to the second, then milliseconds
pub open spec fn civil_of(t: Seq<char>) -> Option<int> {
    if !valid_ts(t) { None }
    else { match civil(t.subrange(0, 14)) {
        None => None,
        Some(n) => Some(if t.len() == 17 { (n / 1_000_000_000) * 1_000_000_000 + dec(t.subrange(14, 17)) * 1_000_000 } else { n }),
    } }
}
pub open spec fn zone_of(tz: Seq<char>) -> Option<bool> { // Some(true): UTC, Some(false): local
    if ascii_lower(tz) == "utc"@ { Some(true) } else if ascii_lower(tz) == "local"@ { Some(false) } else { None }
}
/// the instant (nanoseconds) a timestamp denotes in a time zone
pub open spec fn instant_of(t: Seq<char>, tz: Seq<char>) -> Option<int> {
    match (civil_of(t), zone_of(tz)) {
        (Some(n), Some(true)) => Some(n),
        (Some(n), Some(false)) => local_instant(n),
        _ => None,
    }
}

//@type crates/core/src/config/table.rs TimelineTimezoneValue
//@fn crates/core/src/config/table.rs FromStr for TimelineTimezoneValue::from_str
@rule method to_ascii_lowercase vx_to_ascii_lowercase
@spec
    ensures match ret { Ok(TimelineTimezoneValue::UTC) => zone_of(s@) == Some(true), Ok(TimelineTimezoneValue::Local) => zone_of(s@) == Some(false), Err(_) => zone_of(s@) is None }
@start
    proof { reveal_strlit("utc"); reveal_strlit("local"); assert("utc"@.len() != "local"@.len()); }
//@end

//@fn crates/core/src/timeline/instant.rs Instant::validate_timestamp
@spec
    ensures ret is Ok <==> valid_ts(timestamp@)
@rule method len vx_str_len
@closure 0
    |$1: char| -> (r: bool) ensures r == ('0' <= $1 <= '9')
@start
    proof { lemma_digits_bytes(timestamp@, 0); assert(forall|i: int| 0 <= i < timestamp@.len() ==> ('0' <= #[trigger] timestamp@[i] <= '9') || !digits(timestamp@)); }
//@end

//@fn crates/core/src/timeline/instant.rs Instant::parse_naive_datetime
@spec
    ensures match ret { Ok(d) => civil_of(timestamp@) == Some(d.nanos as int), Err(_) => civil_of(timestamp@) is None }
@rule method parse vx_parse
@rule method len vx_str_len
@rule range_index
@start
    proof { lemma_digits_bytes(timestamp@, 14); dec3(timestamp@.subrange(14, 17)); reveal_strlit("%Y%m%d%H%M%S"); }
//@end

//@fn crates/core/src/timeline/instant.rs Instant::convert_to_timezone
@spec
    ensures match ret { Ok(d) => match zone_of(timezone@) { Some(true) => d.nanos == naive_dt.nanos, Some(false) => local_instant(naive_dt.nanos as int) == Some(d.nanos as int), None => false },
        Err(_) => zone_of(timezone@) is None || (zone_of(timezone@) == Some(false) && local_instant(naive_dt.nanos as int) is None) }
//@end

//@fn crates/core/src/timeline/instant.rs Instant::parse_datetime
@spec
    ensures match ret { Ok(d) => instant_of(timestamp@, timezone@) == Some(d.nanos as int), Err(_) => instant_of(timestamp@, timezone@) is None }
//@end

pub proof fn dec3(s: Seq<char>)
    ensures s.len() == 3 && digits(s) ==> 0 <= dec(s) <= 999
{ reveal_with_fuel(dec, 4); if s.len() == 3 && digits(s) { let a = s.drop_last(); assert(a[1] == s[1] && a[0] == s[0]); let b = a.drop_last(); assert(b[0] == s[0]); } }

// ---- file names of instants -------------------------------------------------------------------
pub open spec fn name_of(i: Instant) -> Seq<char> { i.timestamp@ + seq!['.'] + suffix_of(i.action, i.state) }

//@fn crates/core/src/timeline/instant.rs Instant::try_from_file_name_and_timezone
@spec
    ensures match ret {
        Ok(i) => {
            &&& valid_ts(i.timestamp@)
            &&& instant_of(i.timestamp@, timezone@) matches Some(n) && i.epoch_millis as int == n / 1_000_000
            &&& (file_name@ == name_of(i) || (i.state == State::Inflight && i.action == Action::Commit && file_name@ == i.timestamp@ + seq!['.'] + ("commit"@ + seq!['.'] + "inflight"@)))
        },
        Err(_) => forall|t: Seq<char>, a: Action, s: State| valid_ts(t) && #[trigger] instant_of(t, timezone@) is Some ==> file_name@ != t + seq!['.'] + #[trigger] suffix_of(a, s),
    }
@start
    proof {
        assert forall|t: Seq<char>| #[trigger] valid_ts(t) implies !t.contains('.') by { }
        assert forall|t: Seq<char>, x: Seq<char>, t2: Seq<char>, y: Seq<char>| #![trigger t + seq!['.'] + x, t2 + seq!['.'] + y]
            !t.contains('.') && !t2.contains('.') && t + seq!['.'] + x == t2 + seq!['.'] + y implies t == t2 && x == y by { lemma_split_unique(t, x, t2, y, '.'); }
        assert forall|t: Seq<char>, x: Seq<char>| (#[trigger] (t + seq!['.'] + x)).contains('.') by { lemma_contains_mid(t, x, '.'); }
    }
//@end
//@fn crates/core/src/timeline/instant.rs Instant::file_name
@rule transparent_fmt
@spec
    ensures ret@ == name_of(*self)
@start
    proof { reveal_strlit("."); reveal_strlit("inflight"); assert("."@ =~= seq!['.']);
        assert(Seq::<char>::empty() + self.timestamp@ =~= self.timestamp@);
        assert(name_of(*self) =~= self.timestamp@ + "."@ + suffix_of(self.action, self.state));
        assert(self.timestamp@ + "."@ + action_name(self.action) + "."@ + state_name(self.state) =~= self.timestamp@ + "."@ + (action_name(self.action) + "."@ + state_name(self.state)));
    }
//@end
/// Round trip: the name an instant formats to is parsed back to exactly that instant, and no
/// two instants share a name.
pub proof fn name_injective(i: Instant, j: Instant)
    requires valid_ts(i.timestamp@), valid_ts(j.timestamp@), name_of(i) == name_of(j)
    ensures i.timestamp@ == j.timestamp@, i.action == j.action, i.state == j.state
{
    names_distinct();
    lemma_split_unique(i.timestamp@, suffix_of(i.action, i.state), j.timestamp@, suffix_of(j.action, j.state), '.');
    lemma_contains_mid(action_name(i.action), state_name(i.state), '.');
    lemma_contains_mid(action_name(j.action), state_name(j.state), '.');
    if suffix_of(i.action, i.state).contains('.') && suffix_of(j.action, j.state).contains('.') {
        lemma_split_unique(action_name(i.action), state_name(i.state), action_name(j.action), state_name(j.state), '.');
    }
}

//@prop C02 C03
// ---- order of instants --------------------------------------------------------------------------
pub open spec fn order_of(a: Instant, b: Instant) -> Ordering {
    if a.epoch_millis != b.epoch_millis { vx_int_cmp(a.epoch_millis as int, b.epoch_millis as int) } else { vx_int_cmp(rank_State(a.state), rank_State(b.state)) }
}
impl VxOrd for Instant { open spec fn order(self, o: Self) -> Ordering { order_of(self, o) } open spec fn total() -> bool { true } }
//@fn crates/core/src/timeline/instant.rs Ord for Instant::cmp
@rule method cmp vx_cmp
@spec
    ensures ret == order_of(*self, *other)
@closure 0
    || -> (r: Ordering) ensures r == vx_int_cmp(rank_State(self.state), rank_State(other.state))
//@end
//@fn crates/core/src/timeline/instant.rs PartialOrd for Instant::partial_cmp
@spec
    ensures ret == Some(order_of(*self, *other))
//@end
/// the order is a total preorder, so sorting by it is meaningful
pub proof fn order_total(a: Instant, b: Instant, c: Instant)
    ensures
        order_of(a, b) == Ordering::Less <==> order_of(b, a) == Ordering::Greater,
        order_of(a, b) != Ordering::Greater && order_of(b, c) != Ordering::Greater ==> order_of(a, c) != Ordering::Greater,
{}

//@prop C03 C10 C12
// ---- ranges of instants ---------------------------------------------------------------------------
//@type crates/core/src/timeline/selector.rs InstantRange
//@fn crates/core/src/timeline/selector.rs InstantRange::new
@spec
    ensures ret.timezone == timezone, ret.start_timestamp == start_timestamp, ret.end_timestamp == end_timestamp, ret.start_inclusive == start_inclusive, ret.end_inclusive == end_inclusive
//@end
pub open spec fn is_some_str(o: Option<String>, s: Seq<char>) -> bool { o matches Some(x) && x@ == s }
//@fn crates/core/src/timeline/selector.rs InstantRange::up_to
@spec
    ensures ret.timezone@ == timezone@, ret.start_timestamp is None, is_some_str(ret.end_timestamp, end_timestamp@), ret.end_inclusive
//@end
//@fn crates/core/src/timeline/selector.rs InstantRange::within
@spec
    ensures ret.timezone@ == timezone@, is_some_str(ret.start_timestamp, start_timestamp@), is_some_str(ret.end_timestamp, end_timestamp@), !ret.start_inclusive, !ret.end_inclusive
//@end
//@fn crates/core/src/timeline/selector.rs InstantRange::within_open_closed
@spec
    ensures ret.timezone@ == timezone@, is_some_str(ret.start_timestamp, start_timestamp@), is_some_str(ret.end_timestamp, end_timestamp@), !ret.start_inclusive, ret.end_inclusive
//@end
/// the instant a bound denotes: absent, unparsable, or a point
pub open spec fn bound_ok(o: Option<String>, tz: Seq<char>) -> bool { o matches Some(s) ==> instant_of(s@, tz) is Some }
pub open spec fn bound_at(o: Option<String>, tz: Seq<char>) -> int { instant_of(o->Some_0@, tz)->Some_0 }
pub open spec fn within_range(r: InstantRange, n: int) -> bool {
    &&& r.start_timestamp is Some ==> (bound_at(r.start_timestamp, r.timezone@) < n || (r.start_inclusive && bound_at(r.start_timestamp, r.timezone@) == n))
    &&& r.end_timestamp is Some ==> (n < bound_at(r.end_timestamp, r.timezone@) || (r.end_inclusive && bound_at(r.end_timestamp, r.timezone@) == n))
}
//@fn crates/core/src/timeline/selector.rs InstantRange::start_timestamp
@rule method as_deref vx_as_deref
@spec
    ensures match ret { Ok(o) => bound_ok(self.start_timestamp, self.timezone@) && (o is Some) == (self.start_timestamp is Some) && (o matches Some(d) ==> d.nanos == bound_at(self.start_timestamp, self.timezone@)),
        Err(_) => !bound_ok(self.start_timestamp, self.timezone@) }
@closure 0
    |$1: &str| -> (r: Result<DateTimeUtc>) ensures match r { Ok(d) => instant_of($1@, self.timezone@) == Some(d.nanos as int), Err(_) => instant_of($1@, self.timezone@) is None }
//@end
//@fn crates/core/src/timeline/selector.rs InstantRange::end_timestamp
@rule method as_deref vx_as_deref
@spec
    ensures match ret { Ok(o) => bound_ok(self.end_timestamp, self.timezone@) && (o is Some) == (self.end_timestamp is Some) && (o matches Some(d) ==> d.nanos == bound_at(self.end_timestamp, self.timezone@)),
        Err(_) => !bound_ok(self.end_timestamp, self.timezone@) }
@closure 0
    |$1: &str| -> (r: Result<DateTimeUtc>) ensures match r { Ok(d) => instant_of($1@, self.timezone@) == Some(d.nanos as int), Err(_) => instant_of($1@, self.timezone@) is None }
//@end
//@fn crates/core/src/timeline/selector.rs InstantRange::is_in_range
@spec
    ensures match ret {
        Ok(b) => instant_of(timestamp@, timezone@) is Some && b == within_range(*self, instant_of(timestamp@, timezone@)->Some_0),
        Err(_) => instant_of(timestamp@, timezone@) is None || !bound_ok(self.start_timestamp, self.timezone@) || !bound_ok(self.end_timestamp, self.timezone@) }
//@end
//@fn crates/core/src/timeline/selector.rs InstantRange::not_in_range
@spec
    ensures match ret {
        Ok(b) => instant_of(timestamp@, timezone@) is Some && b == !within_range(*self, instant_of(timestamp@, timezone@)->Some_0),
        Err(_) => instant_of(timestamp@, timezone@) is None || !bound_ok(self.start_timestamp, self.timezone@) || !bound_ok(self.end_timestamp, self.timezone@) }
//@end

//@prop C02 C03
// ---- selection of instants ---------------------------------------------------------------------
#[verifier::external_body] pub struct HudiConfigs { }
#[verifier::external_body] pub struct Storage { }
/// the names of the files the storage lists in a directory
pub uninterp spec fn listing(st: Storage, dir: Option<Seq<char>>) -> Option<Seq<Seq<char>>>;
pub open spec fn opt_str(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
impl Storage {
    #[verifier::external_body]
    pub fn list_files(&self, subdir: Option<&str>) -> (r: core::result::Result<Vec<FileMetadata>, StorageError>)
        ensures match r { Ok(v) => listing(*self, opt_str(subdir)) == Some(v@.map_values(|f: FileMetadata| f.name@)), Err(_) => listing(*self, opt_str(subdir)) is None }
    { unimplemented!() }
}
/// an option's value, by the value the code names it by (config unit)
#[verifier::external_body] pub struct HudiConfigValue { }
pub uninterp spec fn cfg_val<C>(h: HudiConfigs, c: C) -> HudiConfigValue;
pub uninterp spec fn cfg_to<T>(v: HudiConfigValue) -> T;
impl HudiConfigs { #[verifier::external_body] pub fn get_or_default<C>(&self, c: C) -> (r: HudiConfigValue) ensures r == cfg_val(*self, c) { unimplemented!() } }
impl HudiConfigValue { #[verifier::external_body] pub fn to<T>(self) -> (r: T) ensures r == cfg_to::<T>(self) { unimplemented!() } }
pub struct TimelineTimezone;
/// the time zone configured for the timeline
pub open spec fn config_tz(c: HudiConfigs) -> Seq<char> { cfg_to::<String>(cfg_val(c, TimelineTimezone))@ }
//@type crates/core/src/storage/file_metadata.rs FileMetadata
//@type crates/core/src/timeline/selector.rs TimelineSelector
//@type crates/core/src/timeline/mod.rs Timeline
//@type crates/core/src/timeline/mod.rs DEFAULT_LOADING_ACTIONS ensures DEFAULT_LOADING_ACTIONS@ == seq![Action::Commit, Action::DeltaCommit, Action::ReplaceCommit]
//@type crates/core/src/metadata/mod.rs HUDI_METADATA_DIR ensures HUDI_METADATA_DIR@ == ".hoodie"@
//@fn crates/core/src/timeline/selector.rs TimelineSelector::get_timezone_from_configs
@rule path HudiTableConfig::TimelineTimezone TimelineTimezone
@spec
    ensures ret@ == config_tz(*hudi_configs)
//@end
pub open spec fn opt_bound_ok(o: Option<&str>, tz: Seq<char>) -> bool { o matches Some(s) ==> instant_of(s@, tz) is Some }
pub open spec fn opt_bound(o: Option<&str>, tz: Seq<char>, d: Option<DateTimeUtc>) -> bool { match (o, d) { (None, None) => true, (Some(s), Some(d)) => instant_of(s@, tz) == Some(d.nanos as int), _ => false } }
//@fn crates/core/src/timeline/selector.rs TimelineSelector::parse_datetime
@spec
    ensures match ret { Ok(d) => opt_bound(timestamp, timezone@, d), Err(_) => !opt_bound_ok(timestamp, timezone@) }
@closure 0
    |$1: &str| -> (r: Result<DateTimeUtc>) ensures match r { Ok(d) => instant_of($1@, timezone@) == Some(d.nanos as int), Err(_) => instant_of($1@, timezone@) is None }
//@end
pub open spec fn completed_only(s: TimelineSelector) -> bool { s.states@ =~= seq![State::Completed] }
pub open spec fn sel_for(r: Result<TimelineSelector>, tz: Seq<char>, start: Option<&str>, end: Option<&str>) -> bool {
    match r { Ok(s) => s.timezone@ == tz && opt_bound(start, tz, s.start_datetime) && opt_bound(end, tz, s.end_datetime) && completed_only(s),
        Err(_) => !opt_bound_ok(start, tz) || !opt_bound_ok(end, tz) }
}
//@fn crates/core/src/timeline/selector.rs TimelineSelector::completed_actions_in_range
@spec
    ensures sel_for(ret, config_tz(*hudi_configs), start, end), ret matches Ok(s) ==> s.actions@ =~= actions@
//@end
//@fn crates/core/src/timeline/selector.rs TimelineSelector::completed_commits_in_range
@spec
    ensures sel_for(ret, config_tz(*hudi_configs), start, end), ret matches Ok(s) ==> s.actions@ == seq![Action::Commit]
//@end
//@fn crates/core/src/timeline/selector.rs TimelineSelector::completed_deltacommits_in_range
@spec
    ensures sel_for(ret, config_tz(*hudi_configs), start, end), ret matches Ok(s) ==> s.actions@ == seq![Action::DeltaCommit]
//@end
//@fn crates/core/src/timeline/selector.rs TimelineSelector::completed_replacecommits_in_range
@spec
    ensures sel_for(ret, config_tz(*hudi_configs), start, end), ret matches Ok(s) ==> s.actions@ == seq![Action::ReplaceCommit]
//@end
pub open spec fn wants_action(s: TimelineSelector, a: Action) -> bool { s.actions@.len() == 0 || s.actions@.contains(a) }
pub open spec fn wants_state(s: TimelineSelector, a: State) -> bool { s.states@.len() == 0 || s.states@.contains(a) }
//@fn crates/core/src/timeline/selector.rs TimelineSelector::should_include_action
@spec
    ensures ret == wants_action(*self, *action)
//@end
//@fn crates/core/src/timeline/selector.rs TimelineSelector::should_include_state
@spec
    ensures ret == wants_state(*self, *state)
//@end

/// when does a file name denote instant i
pub open spec fn denotes(name: Seq<char>, tz: Seq<char>, i: Instant) -> bool {
    &&& valid_ts(i.timestamp@)
    &&& instant_of(i.timestamp@, tz) matches Some(n) && i.epoch_millis as int == n / 1_000_000
    &&& (name == name_of(i) || (i.state == State::Inflight && i.action == Action::Commit && name == i.timestamp@ + seq!['.'] + ("commit"@ + seq!['.'] + "inflight"@)))
}
pub open spec fn in_bounds(s: TimelineSelector, n: int) -> bool {
    (s.start_datetime matches Some(d) ==> d.nanos <= n) && (s.end_datetime matches Some(d) ==> n < d.nanos)
}
pub open spec fn wants(s: TimelineSelector, i: Instant) -> bool {
    wants_action(s, i.action) && wants_state(s, i.state) && in_bounds(s, instant_of(i.timestamp@, s.timezone@)->Some_0)
}
//@fn crates/core/src/timeline/selector.rs TimelineSelector::try_create_instant
@spec
    ensures match ret {
        Ok(i) => denotes(file_name@, self.timezone@, i) && wants(*self, i),
        Err(_) => forall|i: Instant| #[trigger] denotes(file_name@, self.timezone@, i) && i.state == State::Completed ==> !wants(*self, i),
    }
@start
    proof {
        names_distinct();
        assert forall|t: Seq<char>| #[trigger] valid_ts(t) implies !t.contains('.') by { }
        assert forall|t: Seq<char>, x: Seq<char>, t2: Seq<char>, y: Seq<char>| #![trigger t + seq!['.'] + x, t2 + seq!['.'] + y]
            !t.contains('.') && !t2.contains('.') && t + seq!['.'] + x == t2 + seq!['.'] + y implies t == t2 && x == y by { lemma_split_unique(t, x, t2, y, '.'); }
        assert forall|t: Seq<char>, x: Seq<char>| (#[trigger] (t + seq!['.'] + x)).contains('.') by { lemma_contains_mid(t, x, '.'); }
        assert forall|a: Action, s: State, x: Action, y: State| #![trigger suffix_of(a, s), suffix_of(x, y)] suffix_of(a, s) == suffix_of(x, y) implies a == x && s == y by {
            suffix_injective(a, s, x, y);
        }
        assert(forall|a: Action, s: State| #[trigger] suffix_of(a, s) == "commit"@ + seq!['.'] + "inflight"@ ==> s != State::Completed) by { lemma_contains_mid("commit"@, "inflight"@, '.'); }
    }
//@end
pub proof fn suffix_injective(a: Action, s: State, b: Action, t: State)
    requires suffix_of(a, s) == suffix_of(b, t)
    ensures a == b, s == t
{
    names_distinct();
    lemma_contains_mid(action_name(a), state_name(s), '.');
    lemma_contains_mid(action_name(b), state_name(t), '.');
    if suffix_of(a, s).contains('.') && suffix_of(b, t).contains('.') {
        lemma_split_unique(action_name(a), state_name(s), action_name(b), state_name(t), '.');
    }
}

//@prop C03
pub open spec fn sorted_timeline(s: Seq<Instant>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).epoch_millis <= (#[trigger] s[j]).epoch_millis }
/// in (start, end], at millisecond precision
pub open spec fn after_start_upto_end(s: TimelineSelector, m: int) -> bool {
    (s.start_datetime matches Some(d) ==> millis(d) < m) && (s.end_datetime matches Some(d) ==> m <= millis(d))
}
pub open spec fn selects(s: TimelineSelector, i: Instant) -> bool { wants_action(s, i.action) && wants_state(s, i.state) && after_start_upto_end(s, i.epoch_millis as int) }
//@fn crates/core/src/timeline/selector.rs TimelineSelector::select
@rule method partition_point vx_partition_point
@rule range_index
@closures 4
@spec
    requires sorted_timeline(timeline.completed_commits@)
    ensures ret matches Ok(v) && v@ =~= timeline.completed_commits@.filter(|i: Instant| selects(*self, i))
@closure 0
    |$1: &Instant| -> (r: bool) ensures r == ($1.epoch_millis as int <= millis(start))
@closure 1
    |$1: &Instant| -> (r: bool) ensures r == ($1.epoch_millis as int <= millis(end))
@closure 2
    |$1: &Instant| -> (r: bool) ensures r == ($1.epoch_millis as int <= millis(end))
@closure 3
    |$1: &&Instant| -> (r: bool) ensures r == (wants_action(*self, $1.action) && wants_state(*self, $1.state))
@after let end_pos = timeline.completed_commits[start_pos..]
    proof {
        let all = timeline.completed_commits@; let tail = all.subrange(start_pos as int, all.len() as int);
        assert(sorted_timeline(tail));
        assert(end_pos <= tail.len());
        assert(forall|i: int| 0 <= i < end_pos ==> (#[trigger] tail[i]).epoch_millis as int <= millis(end));
        assert forall|i: int| start_pos + end_pos <= i < all.len() implies (#[trigger] all[i]).epoch_millis as int > millis(end) by { assert(tail[i - start_pos] == all[i]); }
        assert forall|i: int| start_pos <= i < start_pos + end_pos implies (#[trigger] all[i]).epoch_millis as int <= millis(end) by { assert(tail[i - start_pos] == all[i]); }
    }
@before Ok(time_pruned_instants
    proof {
        let all = timeline.completed_commits@;
        let w = time_pruned_instants@;
        let p = |i: Instant| selects(*self, i);
        let q = |i: Instant| wants_action(*self, i.action) && wants_state(*self, i.state);
        let qr = |i: &Instant| wants_action(*self, i.action) && wants_state(*self, i.state);
        assert(all.subrange(0, all.len() as int) =~= all);
        select_window(*self, all, w);
        lemma_filter_refs(w, w.map_values(|x: Instant| &x), q, qr);
    }
//@end
/// the window found by the binary searches holds exactly the instants in (start, end]
pub proof fn select_window(sel: TimelineSelector, all: Seq<Instant>, w: Seq<Instant>)
    requires exists|a: int, b: int| 0 <= a <= b <= all.len() && w =~= #[trigger] all.subrange(a, b)
            && (forall|i: int| 0 <= i < a ==> !after_start_upto_end(sel, (#[trigger] all[i]).epoch_millis as int))
            && (forall|i: int| b <= i < all.len() ==> !after_start_upto_end(sel, (#[trigger] all[i]).epoch_millis as int)),
        forall|i: int| 0 <= i < w.len() ==> after_start_upto_end(sel, (#[trigger] w[i]).epoch_millis as int),
    ensures all.filter(|i: Instant| selects(sel, i)) == w.filter(|i: Instant| wants_action(sel, i.action) && wants_state(sel, i.state))
{
    let (a, b) = choose|a: int, b: int| 0 <= a <= b <= all.len() && w =~= #[trigger] all.subrange(a, b)
            && (forall|i: int| 0 <= i < a ==> !after_start_upto_end(sel, (#[trigger] all[i]).epoch_millis as int))
            && (forall|i: int| b <= i < all.len() ==> !after_start_upto_end(sel, (#[trigger] all[i]).epoch_millis as int));
    lemma_filter_window(all, |i: Instant| selects(sel, i), a, b);
    lemma_filter_congr(w, |i: Instant| selects(sel, i), |i: Instant| wants_action(sel, i.action) && wants_state(sel, i.state));
}

//@prop C02
// ---- loading the timeline --------------------------------------------------------------------------
/// i is the selected instant that a file of this name contributes
pub open spec fn contributes(sel: TimelineSelector, name: Seq<char>, i: Instant) -> bool { denotes(name, sel.timezone@, i) && wants(sel, i) }
/// every element comes from a listed file
pub open spec fn from_listing(v: Seq<Instant>, sel: TimelineSelector, names: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> has_source(#[trigger] v[i], sel, names)
}
pub open spec fn has_source(i: Instant, sel: TimelineSelector, names: Seq<Seq<char>>) -> bool { exists|k: int| 0 <= k < names.len() && contributes(sel, #[trigger] names[k], i) }
/// every listed file that denotes a selected completed instant is there
pub open spec fn listed_in(v: Seq<Instant>, sel: TimelineSelector, names: Seq<Seq<char>>, n: int) -> bool {
    forall|k: int, i: Instant| 0 <= k < n && #[trigger] contributes(sel, names[k], i) && i.state == State::Completed ==> v.contains(i)
}
pub open spec fn sorted_by_time(v: Seq<Instant>, desc: bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> if desc { (#[trigger] v[i]).epoch_millis >= (#[trigger] v[j]).epoch_millis } else { (#[trigger] v[i]).epoch_millis <= (#[trigger] v[j]).epoch_millis }
}
pub open spec fn loaded(v: Seq<Instant>, sel: TimelineSelector, st: Storage, desc: bool) -> bool {
    &&& listing(st, Some(".hoodie"@)) matches Some(names) && from_listing(v, sel, names) && listed_in(v, sel, names, names.len() as int) && v.len() <= names.len()
    &&& sorted_by_time(v, desc)
}
/// a file name determines the instant
pub proof fn contributes_unique(sel: TimelineSelector, name: Seq<char>, i: Instant, j: Instant)
    requires contributes(sel, name, i), contributes(sel, name, j), j.state == State::Completed
    ensures i == j
{
    broadcast use ax_string_ext;
    names_distinct();
    assert(!i.timestamp@.contains('.') && !j.timestamp@.contains('.'));
    let s = if name == name_of(i) { suffix_of(i.action, i.state) } else { "commit"@ + seq!['.'] + "inflight"@ };
    lemma_split_unique(i.timestamp@, s, j.timestamp@, suffix_of(j.action, j.state), '.');
    lemma_contains_mid("commit"@, "inflight"@, '.');
    suffix_injective(i.action, i.state, j.action, j.state);
}
//@fn crates/core/src/timeline/mod.rs Timeline::load_instants
@rule method sort_unstable vx_sort_unstable
@rule method into_iter vx_into_iter
@loops 1
@spec
    ensures match ret { Ok(v) => loaded(v@, *selector, *storage, desc), Err(_) => listing(*storage, Some(".hoodie"@)) is None }
@before for file_info in files
    let ghost names = files@.map_values(|f: FileMetadata| f.name@);
@loop 0
    invariant
        listing(*storage, Some(".hoodie"@)) == Some(names), vx_it0@.len() <= names.len(),
        forall|k: int| 0 <= k < vx_it0@.len() ==> (#[trigger] vx_it0@[k]).name@ == names[names.len() - vx_it0@.len() + k],
        instants@.len() <= names.len() - vx_it0@.len(),
        from_listing(instants@, *selector, names),
        listed_in(instants@, *selector, names, names.len() - vx_it0@.len()),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
@loop 0 start
    let ghost before = instants@;
    let ghost kk = names.len() - vx_it0@.len() - 1;
    proof { assert(file_info.name@ == names[kk]); }
@loop 0 end
    proof {
        assert forall|k: int, i: Instant| 0 <= k < kk + 1 && #[trigger] contributes(*selector, names[k], i) && i.state == State::Completed implies instants@.contains(i) by {
            if k < kk {
                assert(contributes(*selector, names[k], i)); assert(before.contains(i));
                let x = choose|x: int| 0 <= x < before.len() && before[x] == i; assert(instants@[x] == i);
            } else {
                assert(denotes(names[kk], selector.timezone@, i));
                contributes_unique(*selector, names[k], instants@.last(), i);
                assert(instants@[instants@.len() - 1] == i);
            }
        }
    }
@before instants.sort_unstable();
    let ghost unsorted = instants@;
@before if desc {
    proof {
        unsorted.to_multiset_ensures(); instants@.to_multiset_ensures();
        assert forall|i: int| 0 <= i < instants@.len() implies unsorted.contains(#[trigger] instants@[i]) by { assert(instants@.contains(instants@[i])); assert(unsorted.to_multiset().count(instants@[i]) > 0); }
        assert forall|i: Instant| unsorted.contains(i) implies #[trigger] instants@.contains(i) by { assert(instants@.to_multiset().count(i) > 0); }
        assert(from_listing(instants@, *selector, names));
        assert(listed_in(instants@, *selector, names, names.len() as int));
        let rv = instants@.reverse();
        assert forall|i: Instant| instants@.contains(i) implies #[trigger] rv.contains(i) by { let x = choose|x: int| 0 <= x < instants@.len() && instants@[x] == i; assert(rv[rv.len() - 1 - x] == i); }
        assert(from_listing(rv, *selector, names));
        assert(listed_in(rv, *selector, names, names.len() as int));
        assert(sorted_by_time(instants@, false));
        assert(sorted_by_time(rv, true));
    }
//@end

pub uninterp spec fn storage_for(options: Map<String, String>, c: HudiConfigs) -> Option<Storage>;
impl Storage {
    #[verifier::external_body]
    pub fn new(options: Arc<HashMap<String, String>>, c: Arc<HudiConfigs>) -> (r: Result<Arc<Storage>>)
        ensures match r { Ok(s) => storage_for(options@, *c) == Some(*s), Err(_) => storage_for(options@, *c) is None }
    { unimplemented!() }
}
pub open spec fn commit_selector(s: TimelineSelector, tz: Seq<char>, actions: Seq<Action>) -> bool {
    s.timezone@ == tz && s.start_datetime is None && s.end_datetime is None && completed_only(s) && s.actions@ =~= actions
}
pub open spec fn all_actions() -> Seq<Action> { seq![Action::Commit, Action::DeltaCommit, Action::ReplaceCommit] }
/// v is the timeline of the listed files: the completed instants of the given actions, and nothing else, in time order
pub open spec fn is_timeline(v: Seq<Instant>, names: Seq<Seq<char>>, tz: Seq<char>, actions: Seq<Action>, desc: bool) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> completed_from(#[trigger] v[i], names, tz) && actions.contains(v[i].action)
    &&& forall|k: int, i: Instant| 0 <= k < names.len() && #[trigger] denotes(names[k], tz, i) && i.state == State::Completed && actions.contains(i.action) ==> v.contains(i)
    &&& sorted_by_time(v, desc)
}
pub open spec fn completed_from(i: Instant, names: Seq<Seq<char>>, tz: Seq<char>) -> bool { i.state == State::Completed && exists|k: int| 0 <= k < names.len() && denotes(#[trigger] names[k], tz, i) }
pub proof fn timeline_of_selector(v: Seq<Instant>, names: Seq<Seq<char>>, sel: TimelineSelector, tz: Seq<char>, actions: Seq<Action>, desc: bool)
    requires commit_selector(sel, tz, actions), actions.len() > 0, from_listing(v, sel, names), listed_in(v, sel, names, names.len() as int), sorted_by_time(v, desc)
    ensures is_timeline(v, names, tz, actions, desc)
{
    assert forall|i: int| 0 <= i < v.len() implies completed_from(#[trigger] v[i], names, tz) && actions.contains(v[i].action) by {
        assert(has_source(v[i], sel, names));
        let k = choose|k: int| 0 <= k < names.len() && contributes(sel, #[trigger] names[k], v[i]);
        assert(denotes(names[k], tz, v[i]));
    }
    assert forall|k: int, i: Instant| 0 <= k < names.len() && #[trigger] denotes(names[k], tz, i) && i.state == State::Completed && actions.contains(i.action) implies v.contains(i) by {
        assert(sel.states@[0] == State::Completed);
        assert(contributes(sel, names[k], i));
    }
}
//@fn crates/core/src/timeline/mod.rs Timeline::new_from_storage
@spec
    ensures match ret { Ok(t) => storage_for(storage_options@, *hudi_configs) == Some(*t.storage) && t.hudi_configs == hudi_configs
            && (listing(*t.storage, Some(".hoodie"@)) matches Some(names) && is_timeline(t.completed_commits@, names, config_tz(*hudi_configs), all_actions(), false)),
        Err(_) => match storage_for(storage_options@, *hudi_configs) { None => true, Some(st) => listing(st, Some(".hoodie"@)) is None } }
@before let completed_commits =
    proof { assert forall|v: Seq<Instant>| #[trigger] loaded(v, selector, *storage, false) implies is_timeline(v, listing(*storage, Some(".hoodie"@))->Some_0, config_tz(*hudi_configs), all_actions(), false) by {
        timeline_of_selector(v, listing(*storage, Some(".hoodie"@))->Some_0, selector, config_tz(*hudi_configs), all_actions(), false); } }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_completed_commits
@spec
    ensures match ret { Ok(v) => (listing(*self.storage, Some(".hoodie"@)) matches Some(names) && is_timeline(v@, names, config_tz(*self.hudi_configs), seq![Action::Commit], desc)), Err(_) => listing(*self.storage, Some(".hoodie"@)) is None }
@before Self::load_instants
    proof { assert forall|v: Seq<Instant>| #[trigger] loaded(v, selector, *self.storage, desc) implies is_timeline(v, listing(*self.storage, Some(".hoodie"@))->Some_0, config_tz(*self.hudi_configs), seq![Action::Commit], desc) by {
        timeline_of_selector(v, listing(*self.storage, Some(".hoodie"@))->Some_0, selector, config_tz(*self.hudi_configs), seq![Action::Commit], desc); } }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_completed_deltacommits
@spec
    ensures match ret { Ok(v) => (listing(*self.storage, Some(".hoodie"@)) matches Some(names) && is_timeline(v@, names, config_tz(*self.hudi_configs), seq![Action::DeltaCommit], desc)), Err(_) => listing(*self.storage, Some(".hoodie"@)) is None }
@before Self::load_instants
    proof { assert forall|v: Seq<Instant>| #[trigger] loaded(v, selector, *self.storage, desc) implies is_timeline(v, listing(*self.storage, Some(".hoodie"@))->Some_0, config_tz(*self.hudi_configs), seq![Action::DeltaCommit], desc) by {
        timeline_of_selector(v, listing(*self.storage, Some(".hoodie"@))->Some_0, selector, config_tz(*self.hudi_configs), seq![Action::DeltaCommit], desc); } }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_completed_replacecommits
@spec
    ensures match ret { Ok(v) => (listing(*self.storage, Some(".hoodie"@)) matches Some(names) && is_timeline(v@, names, config_tz(*self.hudi_configs), seq![Action::ReplaceCommit], desc)), Err(_) => listing(*self.storage, Some(".hoodie"@)) is None }
@before Self::load_instants
    proof { assert forall|v: Seq<Instant>| #[trigger] loaded(v, selector, *self.storage, desc) implies is_timeline(v, listing(*self.storage, Some(".hoodie"@))->Some_0, config_tz(*self.hudi_configs), seq![Action::ReplaceCommit], desc) by {
        timeline_of_selector(v, listing(*self.storage, Some(".hoodie"@))->Some_0, selector, config_tz(*self.hudi_configs), seq![Action::ReplaceCommit], desc); } }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_latest_commit_timestamp_as_option
@spec
    ensures match ret { None => self.completed_commits@.len() == 0, Some(t) => self.completed_commits@.len() > 0 && t@ == self.completed_commits@.last().timestamp@ }
@closure 0
    |$1: &Instant| -> (r: &str) ensures r@ == $1.timestamp@
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_latest_commit_timestamp
@rule method map_or_else vx_map_or_else
@closure 0
    || -> (r: Result<String>) ensures r is Err
@closure 1
    |$1: &str| -> (r: Result<String>) ensures r matches Ok(s) && s@ == $1@
@spec
    ensures match ret { Err(_) => self.completed_commits@.len() == 0, Ok(t) => self.completed_commits@.len() > 0 && t@ == self.completed_commits@.last().timestamp@ }
//@end
/// the latest commit of a timeline is the greatest completed instant
pub proof fn latest_is_max(v: Seq<Instant>, names: Seq<Seq<char>>, tz: Seq<char>, i: int)
    requires is_timeline(v, names, tz, all_actions(), false), 0 <= i < v.len()
    ensures v[i].epoch_millis <= v.last().epoch_millis
{}
}
