//@include builder.inc
//@rules reset
//@include timeline.inc
verus! {
//@rule path Value VValue
//@rule path Map VMap
//@rule path HashSet VHSet
//@rule path HashMap VMap
//@rule path PathBuf VPathBuf
//@rule path serde_json::from_slice vx_json_from_slice
//@rule eq_ops
//@rule method vx_iter vx_iter

impl VxEq<Action> for Action { open spec fn same(&self, o: &Action) -> bool { *self == *o } }
impl VxEq<State> for State { open spec fn same(&self, o: &State) -> bool { *self == *o } }

//@prop C05 C06
// ---- the metadata file of an instant -----------------------------------------------------------
/// PathBuf::push
pub uninterp spec fn path_push(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub axiom fn ax_path_push(a: Seq<char>, b: Seq<char>) ensures a.len() > 0 && a.last() != '/' && b.len() > 0 && b[0] != '/' ==> path_push(a, b) == a + seq!['/'] + b;
#[verifier::external_body] pub struct VPathBuf { _p: () }
impl VPathBuf {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from(s: &str) -> (r: VPathBuf) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: String) ensures final(self).text() == path_push(old(self).text(), s@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures r matches Some(s) && s@ == self.text() { unimplemented!() /* the path was built from strs */ }
}
#[verifier::external_body] pub struct VBytes { _p: () }
impl View for VBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct SerdeErr { _p: () }
/// the JSON object that a file's bytes hold
pub uninterp spec fn json_object(b: Seq<u8>) -> Option<Map<Seq<char>, VValue>>;
#[verifier::external_body]
pub fn vx_json_from_slice(b: &VBytes) -> (r: core::result::Result<VMap<String, VValue>, SerdeErr>)
    ensures match r { Ok(m) => json_object(b@) == Some(m@), Err(_) => json_object(b@) is None }
{ unimplemented!() }
/// the bytes of a file of the table (files do not change once written)
pub uninterp spec fn file_bytes(st: Storage, path: Seq<char>) -> Option<Seq<u8>>;
impl Storage {
    #[verifier::external_body]
    pub fn get_file_data(&self, path: &str) -> (r: core::result::Result<VBytes, StorageError>)
        ensures match r { Ok(b) => file_bytes(*self, path@) == Some(b@), Err(_) => file_bytes(*self, path@) is None }
    { unimplemented!() }
}
//@fn crates/core/src/timeline/instant.rs Instant::relative_path
@rule opaque_fmt
@rule path CoreError::Storage vx_err_storage
@closure 0
    |$1: &str| -> (r: String) ensures r@ == $1@
@spec
    ensures ret matches Ok(s) && s@ == path_push(".hoodie"@, name_of(*self))
//@end
pub open spec fn meta_of(t: Timeline, i: Instant) -> Option<Map<Seq<char>, VValue>> { match file_bytes(*t.storage, path_push(".hoodie"@, name_of(i))) { Some(b) => json_object(b), None => None } }
//@fn crates/core/src/timeline/mod.rs Timeline::get_instant_metadata
@rule opaque_fmt
@closure 0
    |$1: SerdeErr| -> (r: CoreError)
@spec
    ensures match ret { Ok(m) => meta_of(*self, *instant) == Some(m@), Err(_) => meta_of(*self, *instant) is None }
//@end
//@fn crates/core/src/timeline/instant.rs Action::is_replacecommit
@spec
    ensures ret == (*self == Action::ReplaceCommit)
//@end
//@fn crates/core/src/timeline/instant.rs Instant::is_replacecommit
@spec
    ensures ret == (self.action == Action::ReplaceCommit)
//@end

// ---- file groups of the timeline -----------------------------------------------------------------
pub proof fn lemma_add_all_dom<T: VxKey>(s: Map<T::K, T>, xs: Seq<T>)
    ensures forall|k: T::K| #[trigger] hset_add_all(s, xs).dom().contains(k) <==> s.dom().contains(k) || seq_has_key(xs, k)
    decreases xs.len()
{
    if xs.len() > 0 {
        lemma_add_all_dom(s, xs.drop_last());
        let m = hset_add_all(s, xs.drop_last());
        assert(hset_add_all(s, xs) == hset_add(m, xs.last()));
        assert(xs[xs.len() - 1] == xs.last());
        assert forall|k: T::K| #[trigger] hset_add_all(s, xs).dom().contains(k) <==> m.dom().contains(k) || k == xs.last().k() by { }
        assert forall|k: T::K| #[trigger] hset_add_all(s, xs).dom().contains(k) <==> s.dom().contains(k) || seq_has_key(xs, k) by {
            assert(m.dom().contains(k) <==> s.dom().contains(k) || seq_has_key(xs.drop_last(), k));
            if seq_has_key(xs, k) { let i = choose|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == k; if i < xs.len() - 1 { assert(xs.drop_last()[i] == xs[i]); assert(seq_has_key(xs.drop_last(), k)); } }
            if seq_has_key(xs.drop_last(), k) { let i = choose|i: int| 0 <= i < xs.len() - 1 && (#[trigger] xs.drop_last()[i]).k() == k; assert(xs[i].k() == k); }
            assert(xs[xs.len() - 1] == xs.last());
        }
    }
}
pub open spec fn seq_has_key<T: VxKey>(xs: Seq<T>, k: T::K) -> bool { exists|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == k }
/// after start, not after end (None: no bound), by the points in time the timestamps denote
pub open spec fn in_window(i: Instant, start: Option<&str>, end: Option<&str>, tz: Seq<char>) -> bool {
    &&& start matches Some(s) ==> instant_of(s@, tz)->Some_0 / 1_000_000 < i.epoch_millis as int
    &&& end matches Some(e) ==> i.epoch_millis as int <= instant_of(e@, tz)->Some_0 / 1_000_000
}
pub open spec fn completed_in(t: Timeline, i: Instant, start: Option<&str>, end: Option<&str>) -> bool { t.completed_commits@.contains(i) && i.state == State::Completed && in_window(i, start, end, config_tz(*t.hudi_configs)) }
/// i is a completed replace commit in the window whose metadata replaces that group
pub open spec fn replaced_by(t: Timeline, i: Instant, start: Option<&str>, end: Option<&str>, key: (Seq<char>, Seq<char>)) -> bool {
    completed_in(t, i, start, end) && i.action == Action::ReplaceCommit && (meta_of(t, i) matches Some(m) && replaces(m, key))
}
pub open spec fn replaced_in(t: Timeline, start: Option<&str>, end: Option<&str>, key: (Seq<char>, Seq<char>)) -> bool { exists|i: Instant| #[trigger] replaced_by(t, i, start, end, key) }

/// some of the first n instants replaces the group
pub open spec fn repl_some(t: Timeline, is: Seq<Instant>, n: int, key: (Seq<char>, Seq<char>)) -> bool { exists|i: int| 0 <= i < n && (#[trigger] is[i]).action == Action::ReplaceCommit && (meta_of(t, is[i]) matches Some(m) && replaces(m, key)) }
pub proof fn lemma_repl_step(t: Timeline, is: Seq<Instant>, n: int, key: (Seq<char>, Seq<char>))
    requires 0 <= n < is.len()
    ensures repl_some(t, is, n + 1, key) <==> repl_some(t, is, n, key) || (is[n].action == Action::ReplaceCommit && (meta_of(t, is[n]) matches Some(m) && replaces(m, key)))
{
    if repl_some(t, is, n + 1, key) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] is[i]).action == Action::ReplaceCommit && (meta_of(t, is[i]) matches Some(m) && replaces(m, key)); if i < n { assert(repl_some(t, is, n, key)); } }
    if repl_some(t, is, n, key) { let i = choose|i: int| 0 <= i < n && (#[trigger] is[i]).action == Action::ReplaceCommit && (meta_of(t, is[i]) matches Some(m) && replaces(m, key)); assert(repl_some(t, is, n + 1, key)); }
}
/// what a selector for a window selects from a timeline
pub proof fn lemma_selected(t: Timeline, sel: TimelineSelector, start: Option<&str>, end: Option<&str>, is: Seq<Instant>)
    requires sel_for(Ok(sel), config_tz(*t.hudi_configs), start, end), is == t.completed_commits@.filter(|i: Instant| selects(sel, i))
    ensures forall|i: Instant| #[trigger] is.contains(i) <==> completed_in(t, i, start, end) && wants_action(sel, i.action)
{
    let all = t.completed_commits@; let p = |i: Instant| selects(sel, i);
    assert(sel.states@[0] == State::Completed);
    assert forall|i: Instant| #[trigger] is.contains(i) <==> completed_in(t, i, start, end) && wants_action(sel, i.action) by {
        assert(selects(sel, i) <==> wants_action(sel, i.action) && i.state == State::Completed && in_window(i, start, end, config_tz(*t.hudi_configs))) by { assert(sel.states@.contains(i.state) <==> i.state == State::Completed); }
        if is.contains(i) { all.lemma_filter_contains_rev(p, i); }
        if all.contains(i) && selects(sel, i) { let k = choose|k: int| 0 <= k < all.len() && all[k] == i; broadcast use vstd::seq_lib::group_filter_ensures; assert(p(all[k])); assert(is.contains(all[k])); }
    }
}
/// the metadata of the commit cannot be read, or does not list what it replaces
pub open spec fn unreadable_replace(t: Timeline, i: Instant) -> bool { match meta_of(t, i) { None => true, Some(m) => bad_replace(m) } }
pub open spec fn unreadable_replace_in(t: Timeline, start: Option<&str>, end: Option<&str>) -> bool { exists|i: Instant| #[trigger] completed_in(t, i, start, end) && i.action == Action::ReplaceCommit && unreadable_replace(t, i) }
//@fn crates/core/src/timeline/mod.rs Timeline::get_replaced_file_groups_as_of
@loops 1
@spec
    requires sorted_timeline(self.completed_commits@)
    ensures match ret { Ok(gs) => forall|key: (Seq<char>, Seq<char>)| #[trigger] gs@.dom().contains(key) <==> replaced_in(*self, None, Some(timestamp), key),
        Err(_) => !opt_bound_ok(Some(timestamp), config_tz(*self.hudi_configs)) || unreadable_replace_in(*self, None, Some(timestamp)) }
@loop 0 pre
    let ghost is = vx_it0@; let ghost mut n: int = 0;
    proof { lemma_selected(*self, selector, None, Some(timestamp), is); assert(selector.actions@[0] == Action::ReplaceCommit); }
@loop 0
    invariant 0 <= n <= is.len(), vx_it0@ == is.subrange(n, is.len() as int),
        forall|i: Instant| #[trigger] is.contains(i) ==> i.action == Action::ReplaceCommit && completed_in(*self, i, None, Some(timestamp)),
        forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> repl_some(*self, is, n, key),
    ensures n == is.len()
    decreases vx_it0@.len()
@loop 0 start
    let ghost pre = file_groups@;
    proof { assert(instant == is[n]); assert(is.subrange(n, is.len() as int).drop_first() =~= is.subrange(n + 1, is.len() as int)); assert(is.contains(is[n]));
        assert(unreadable_replace(*self, is[n]) ==> unreadable_replace_in(*self, None, Some(timestamp)));
        assert forall|s: Map<(Seq<char>, Seq<char>), FileGroup>, g: VHSet<FileGroup>| #![trigger hset_add_all(s, g.items())] forall|k: (Seq<char>, Seq<char>)| #[trigger] hset_add_all(s, g.items()).dom().contains(k) <==> s.dom().contains(k) || g@.dom().contains(k) by { lemma_extend(s, g); } }
@loop 0 end
    proof { assert forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> repl_some(*self, is, n + 1, key) by { lemma_repl_step(*self, is, n, key); } n = n + 1; }
@loop 0 post
    proof {
        assert forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> replaced_in(*self, None, Some(timestamp), key) by {
            if repl_some(*self, is, n, key) { let i = choose|i: int| 0 <= i < n && (#[trigger] is[i]).action == Action::ReplaceCommit && (meta_of(*self, is[i]) matches Some(m) && replaces(m, key)); assert(is.contains(is[i])); assert(replaced_by(*self, is[i], None, Some(timestamp), key)); }
            if replaced_in(*self, None, Some(timestamp), key) { let x = choose|x: Instant| #[trigger] replaced_by(*self, x, None, Some(timestamp), key); assert(selector.actions@.contains(x.action)); assert(is.contains(x)); let i = choose|i: int| 0 <= i < is.len() && is[i] == x; assert(is[i].action == Action::ReplaceCommit); }
        }
    }
//@end
pub proof fn lemma_extend<T: VxKey>(s: Map<T::K, T>, g: VHSet<T>)
    ensures forall|k: T::K| #[trigger] hset_add_all(s, g.items()).dom().contains(k) <==> s.dom().contains(k) || g@.dom().contains(k)
{
    let xs = g.items();
    lemma_add_all_dom(s, xs);
    assert forall|k: T::K| #[trigger] hset_add_all(s, xs).dom().contains(k) <==> s.dom().contains(k) || g@.dom().contains(k) by {
        if seq_has_key(xs, k) { let i = choose|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == k; assert(g@.dom().contains(xs[i].k())); }
        if g@.dom().contains(k) { let i = choose|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == k; assert(seq_has_key(xs, k)); }
    }
}

pub proof fn lemma_add_all_vals<T: VxKey>(s: Map<T::K, T>, xs: Seq<T>)
    ensures forall|k: T::K| #[trigger] hset_add_all(s, xs).dom().contains(k) ==> (s.dom().contains(k) && hset_add_all(s, xs)[k] == s[k]) || xs.contains(hset_add_all(s, xs)[k]) && hset_add_all(s, xs)[k].k() == k
    decreases xs.len()
{
    if xs.len() > 0 {
        lemma_add_all_vals(s, xs.drop_last());
        let m = hset_add_all(s, xs.drop_last()); let r = hset_add_all(s, xs);
        assert(r == hset_add(m, xs.last()));
        assert forall|k: T::K| #[trigger] r.dom().contains(k) implies (s.dom().contains(k) && r[k] == s[k]) || xs.contains(r[k]) && r[k].k() == k by {
            if m.dom().contains(k) { assert(r[k] == m[k]); if xs.drop_last().contains(m[k]) { let i = choose|i: int| 0 <= i < xs.len() - 1 && xs.drop_last()[i] == m[k]; assert(xs[i] == m[k]); } }
            else { assert(xs[xs.len() - 1] == r[k]); }
        }
    }
}
/// collecting the elements of a set gives that set
pub proof fn lemma_collect<T: VxKey>(xs: Seq<T>, m: Map<T::K, T>)
    requires hset_lists(xs, m)
    ensures hset_add_all(Map::<T::K, T>::empty(), xs) == m
{
    let e = Map::<T::K, T>::empty(); let r = hset_add_all(e, xs);
    lemma_add_all_dom(e, xs); lemma_add_all_vals(e, xs);
    assert forall|k: T::K| r.dom().contains(k) == m.dom().contains(k) by {
        if seq_has_key(xs, k) { let i = choose|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == k; assert(m.dom().contains(xs[i].k())); }
        if m.dom().contains(k) { let i = choose|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == k; assert(seq_has_key(xs, k)); }
    }
    assert forall|k: T::K| r.dom().contains(k) implies r[k] == m[k] by { assert(xs.contains(r[k])); let i = choose|i: int| 0 <= i < xs.len() && xs[i] == r[k]; assert(xs[i].k() == k); }
    assert(r =~= m);
}
pub proof fn lemma_covered_trans(x: FileGroup, y: FileGroup, z: FileGroup)
    requires covered(x, y), covered(y, z)
    ensures covered(x, z)
{
    assert forall|k: Seq<char>| #[trigger] x.file_slices@.dom().contains(k) implies z.file_slices@.dom().contains(k) && slice_covered(x.file_slices@[k], z.file_slices@[k]) by {
        assert(y.file_slices@.dom().contains(k)); assert(slice_covered(x.file_slices@[k], y.file_slices@[k])); assert(slice_covered(y.file_slices@[k], z.file_slices@[k]));
        assert forall|l: LogFile| #[trigger] x.file_slices@[k].log_files@.contains(l) implies has_log(z.file_slices@[k].log_files@, l) by {
            let e = choose|e: LogFile| #[trigger] y.file_slices@[k].log_files@.contains(e) && lk(e) == lk(l);
            assert(has_log(z.file_slices@[k].log_files@, e));
        }
    }
}
pub type GKey = (Seq<char>, Seq<char>);
pub proof fn lemma_base_from_trans(a: Seq<FileGroup>, xs: Seq<FileGroup>, b: Seq<FileGroup>, key: GKey, k: Seq<char>, s: FileSlice, gk: FileGroup)
    requires base_from(a + xs, key, k, s), forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == key ==> xs[i] == gk && (gk.file_slices@.dom().contains(k) ==> base_from(b, key, k, gk.file_slices@[k]))
    ensures base_from(a + b, key, k, s)
{
    let ax = a + xs; let all = a + b;
    let i = choose|i: int| 0 <= i < ax.len() && (#[trigger] ax[i]).k() == key && ax[i].file_slices@.dom().contains(k) && ax[i].file_slices@[k].base_file == s.base_file && ax[i].file_slices@[k].partition_path == s.partition_path;
    if i < a.len() { assert(all[i] == ax[i]); }
    else { assert(ax[i] == xs[i - a.len()]); let gs = gk.file_slices@[k];
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).k() == key && b[j].file_slices@.dom().contains(k) && b[j].file_slices@[k].base_file == gs.base_file && b[j].file_slices@[k].partition_path == gs.partition_path; assert(all[a.len() + j] == b[j]); }
}
pub proof fn lemma_log_from_trans(a: Seq<FileGroup>, xs: Seq<FileGroup>, b: Seq<FileGroup>, key: GKey, k: Seq<char>, l: LogFile, gk: FileGroup)
    requires log_from(a + xs, key, k, l), forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == key ==> xs[i] == gk && (gk.file_slices@.dom().contains(k) && gk.file_slices@[k].log_files@.contains(l) ==> log_from(b, key, k, l))
    ensures log_from(a + b, key, k, l)
{
    let ax = a + xs; let all = a + b;
    let i = choose|i: int| 0 <= i < ax.len() && (#[trigger] ax[i]).k() == key && ax[i].file_slices@.dom().contains(k) && ax[i].file_slices@[k].log_files@.contains(l);
    if i < a.len() { assert(all[i] == ax[i]); }
    else { assert(ax[i] == xs[i - a.len()]);
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).k() == key && b[j].file_slices@.dom().contains(k) && b[j].file_slices@[k].log_files@.contains(l); assert(all[a.len() + j] == b[j]); }
}
pub proof fn lemma_group_from_trans(a: Seq<FileGroup>, xs: Seq<FileGroup>, b: Seq<FileGroup>, key: GKey, g: FileGroup, gk: FileGroup)
    requires group_from(a + xs, key, g), forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == key ==> xs[i] == gk && group_from(b, key, gk)
    ensures group_from(a + b, key, g)
{
    hide(base_from); hide(log_from);
    let ax = a + xs; let all = a + b;
    let i0 = choose|i: int| 0 <= i < ax.len() && (#[trigger] ax[i]).k() == key;
    if i0 >= a.len() { assert(ax[i0] == xs[i0 - a.len()]); let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).k() == key; assert(all[a.len() + j].k() == key); } else { assert(all[i0].k() == key); }
    assert forall|k: Seq<char>| #[trigger] g.file_slices@.dom().contains(k) implies slice_from(all, key, k, g.file_slices@[k]) by {
        let s = g.file_slices@[k];
        assert(slice_from(ax, key, k, s));
        assert forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == key && gk.file_slices@.dom().contains(k) implies slice_from(b, key, k, gk.file_slices@[k]) by { assert(group_from(b, key, gk)); }
        lemma_base_from_trans(a, xs, b, key, k, s, gk);
        assert forall|l: LogFile| #[trigger] s.log_files@.contains(l) implies log_from(all, key, k, l) by { lemma_log_from_trans(a, xs, b, key, k, l, gk); }
    }
}
/// a union of unions is the union of all
pub proof fn lemma_holds_trans(a: Seq<FileGroup>, g: Map<GKey, FileGroup>, xs: Seq<FileGroup>, b: Seq<FileGroup>, m: Map<GKey, FileGroup>)
    requires hset_lists(xs, g), holds(b, g), holds(a + xs, m)
    ensures holds(a + b, m)
{
    hide(group_from); hide(covered);
    let all = a + b; let ax = a + xs;
    assert forall|i: int| 0 <= i < all.len() implies in_set(#[trigger] all[i], m) by {
        if i < a.len() { assert(ax[i] == a[i]); assert(in_set(ax[i], m)); }
        else {
            let y = b[i - a.len()]; assert(in_set(y, g)); let gk = g[y.k()];
            let j = choose|j: int| 0 <= j < xs.len() && (#[trigger] xs[j]).k() == y.k(); assert(ax[a.len() + j] == xs[j]); assert(xs[j] == gk); assert(in_set(ax[a.len() + j], m));
            lemma_covered_trans(y, gk, m[y.k()]);
        }
    }
    assert forall|key: GKey| #[trigger] m.dom().contains(key) implies m[key].k() == key && group_from(all, key, m[key]) by {
        assert(group_from(ax, key, m[key]));
        assert forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]).k() == key implies xs[i] == g[key] && group_from(b, key, g[key]) by { assert(g.dom().contains(key)); }
        lemma_group_from_trans(a, xs, b, key, m[key], g[key]);
    }
}
/// the groups made are those of the write stats of the instants' metadata, one for each stat
pub open spec fn stat_source_in(t: Timeline, is: Seq<Instant>, n: int, g: FileGroup) -> bool { exists|i: int| 0 <= i < n && (meta_of(t, #[trigger] is[i]) matches Some(m) && stat_source(m, g)) }
pub open spec fn made_from_instants(made: Seq<FileGroup>, t: Timeline, is: Seq<Instant>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < made.len() ==> stat_source_in(t, is, n, #[trigger] made[i])
    &&& forall|i: int, p: Seq<char>, s: VValue| 0 <= i < n && is_stat(meta_of(t, #[trigger] is[i])->Some_0, p, s) ==> #[trigger] stat_made(made, p, s)
}
pub proof fn lemma_made_step(made: Seq<FileGroup>, b: Seq<FileGroup>, t: Timeline, is: Seq<Instant>, n: int)
    requires 0 <= n < is.len(), made_from_instants(made, t, is, n), meta_of(t, is[n]) matches Some(m) && made_from_stats(b, m)
    ensures made_from_instants(made + b, t, is, n + 1)
{
    hide(group_of_stat); hide(stat_source); hide(is_stat);
    let all = made + b; let m = meta_of(t, is[n])->Some_0;
    assert forall|i: int| 0 <= i < all.len() implies stat_source_in(t, is, n + 1, #[trigger] all[i]) by {
        if i < made.len() { assert(all[i] == made[i]); assert(stat_source_in(t, is, n, made[i])); let j = choose|j: int| 0 <= j < n && (meta_of(t, #[trigger] is[j]) matches Some(m) && stat_source(m, made[i])); assert(stat_source(meta_of(t, is[j])->Some_0, all[i])); }
        else { assert(all[i] == b[i - made.len()]); assert(stat_source(m, b[i - made.len()])); }
    }
    assert forall|i: int, p: Seq<char>, s: VValue| 0 <= i < n + 1 && is_stat(meta_of(t, #[trigger] is[i])->Some_0, p, s) implies #[trigger] stat_made(all, p, s) by {
        if i < n { assert(stat_made(made, p, s)); let j = choose|j: int| 0 <= j < made.len() && group_of_stat(p, s, #[trigger] made[j]); assert(all[j] == made[j]); }
        else { assert(stat_made(b, p, s)); let j = choose|j: int| 0 <= j < b.len() && group_of_stat(p, s, #[trigger] b[j]); assert(all[made.len() + j] == b[j]); }
    }
}
/// gs: the union of what the commits in the window wrote, less the groups replaced in it
pub open spec fn window_groups(t: Timeline, start: Option<&str>, end: Option<&str>, gs: Map<(Seq<char>, Seq<char>), FileGroup>, is: Seq<Instant>, made: Seq<FileGroup>, m: Map<(Seq<char>, Seq<char>), FileGroup>) -> bool {
    &&& forall|i: Instant| #[trigger] is.contains(i) <==> completed_in(t, i, start, end) && all_actions().contains(i.action)
    &&& made_from_instants(made, t, is, is.len() as int)
    &&& holds(made, m)
    &&& forall|key: (Seq<char>, Seq<char>)| #[trigger] gs.dom().contains(key) <==> m.dom().contains(key) && !replaced_in(t, start, end, key)
    &&& forall|key: (Seq<char>, Seq<char>)| #[trigger] gs.dom().contains(key) ==> gs[key] == m[key]
}
pub open spec fn groups_between(t: Timeline, start: Option<&str>, end: Option<&str>, gs: Map<(Seq<char>, Seq<char>), FileGroup>) -> bool {
    exists|is: Seq<Instant>, made: Seq<FileGroup>, m: Map<(Seq<char>, Seq<char>), FileGroup>| #[trigger] window_groups(t, start, end, gs, is, made, m)
}
/// the metadata of the commit cannot be read, or does not describe what it wrote (or replaced)
pub open spec fn unreadable_commit(t: Timeline, i: Instant) -> bool { match meta_of(t, i) { None => true, Some(m) => bad_commit(m) || i.action == Action::ReplaceCommit && bad_replace(m) } }
pub open spec fn unreadable_commit_in(t: Timeline, start: Option<&str>, end: Option<&str>) -> bool { exists|i: Instant| #[trigger] completed_in(t, i, start, end) && unreadable_commit(t, i) }
/// the commit wrote the group
pub open spec fn commit_wrote(t: Timeline, i: Instant, start: Option<&str>, end: Option<&str>, g: FileGroup) -> bool { completed_in(t, i, start, end) && (meta_of(t, i) matches Some(m) && stat_source(m, g)) }
pub open spec fn written_in(t: Timeline, start: Option<&str>, end: Option<&str>, g: FileGroup) -> bool { exists|i: Instant| #[trigger] commit_wrote(t, i, start, end, g) }
/// two commits of the window disagree on the base file of a slice
pub open spec fn clash_in(t: Timeline, start: Option<&str>, end: Option<&str>) -> bool { exists|a: FileGroup, b: FileGroup| #[trigger] written_in(t, start, end, a) && #[trigger] written_in(t, start, end, b) && clash(a, b) }
pub open spec fn groups_lost(t: Timeline, start: Option<&str>, end: Option<&str>) -> bool { !opt_bound_ok(start, config_tz(*t.hudi_configs)) || !opt_bound_ok(end, config_tz(*t.hudi_configs)) || unreadable_commit_in(t, start, end) || clash_in(t, start, end) }
/// an element of a + xs and its slice of commit k are represented in a + b
pub proof fn lemma_rep(a: Seq<FileGroup>, g: Map<GKey, FileGroup>, xs: Seq<FileGroup>, b: Seq<FileGroup>, i: int, k: Seq<char>) -> (j: int)
    requires hset_lists(xs, g), holds(b, g), 0 <= i < (a + xs).len(), (a + xs)[i].file_slices@.dom().contains(k)
    ensures 0 <= j < (a + b).len(), (a + b)[j].k() == (a + xs)[i].k(), (a + b)[j].file_slices@.dom().contains(k), (a + b)[j].file_slices@[k].same(&(a + xs)[i].file_slices@[k])
{
    if i < a.len() { assert((a + b)[i] == a[i]); i }
    else {
        let x = xs[i - a.len()]; let key = x.k(); assert((a + xs)[i] == x); assert(g.dom().contains(key)); assert(g[key] == x);
        assert(group_from(b, key, x)); assert(slice_from(b, key, k, x.file_slices@[k])); let s = x.file_slices@[k];
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).k() == key && b[j].file_slices@.dom().contains(k) && b[j].file_slices@[k].base_file == s.base_file && b[j].file_slices@[k].partition_path == s.partition_path;
        assert((a + b)[a.len() + j] == b[j]); a.len() + j
    }
}
pub proof fn lemma_clash_trans(a: Seq<FileGroup>, g: Map<GKey, FileGroup>, xs: Seq<FileGroup>, b: Seq<FileGroup>)
    requires hset_lists(xs, g), holds(b, g), clashing(a + xs)
    ensures clashing(a + b)
{
    let ax = a + xs;
    let (i, j) = choose|i: int, j: int| 0 <= i < ax.len() && 0 <= j < ax.len() && clash(#[trigger] ax[i], #[trigger] ax[j]);
    let k = choose|k: Seq<char>| #![trigger ax[i].file_slices@.dom().contains(k)] #![trigger ax[j].file_slices@.dom().contains(k)] ax[i].file_slices@.dom().contains(k) && ax[j].file_slices@.dom().contains(k) && !ax[i].file_slices@[k].same(&ax[j].file_slices@[k]);
    let x = lemma_rep(a, g, xs, b, i, k); let y = lemma_rep(a, g, xs, b, j, k);
    assert(clash((a + b)[x], (a + b)[y]));
}
pub open spec fn all_written(t: Timeline, start: Option<&str>, end: Option<&str>, made: Seq<FileGroup>) -> bool { forall|i: int| 0 <= i < made.len() ==> written_in(t, start, end, #[trigger] made[i]) }
/// groups that clash were written by commits of the window
pub proof fn lemma_clash_in(t: Timeline, start: Option<&str>, end: Option<&str>, made: Seq<FileGroup>, b: Seq<FileGroup>, i: Instant)
    requires clashing(made + b), all_written(t, start, end, made), completed_in(t, i, start, end), meta_of(t, i) matches Some(m) && made_from_stats(b, m)
    ensures clash_in(t, start, end)
{
    hide(clash); hide(stat_source); hide(completed_in);
    let all = made + b;
    lemma_written(t, start, end, made, b, i);
    let (x, y) = choose|x: int, y: int| 0 <= x < all.len() && 0 <= y < all.len() && clash(#[trigger] all[x], #[trigger] all[y]);
    assert(written_in(t, start, end, all[x]) && written_in(t, start, end, all[y]));
}
pub proof fn lemma_written(t: Timeline, start: Option<&str>, end: Option<&str>, made: Seq<FileGroup>, b: Seq<FileGroup>, i: Instant)
    requires all_written(t, start, end, made), completed_in(t, i, start, end), meta_of(t, i) matches Some(m) && made_from_stats(b, m)
    ensures all_written(t, start, end, made + b)
{
    hide(stat_source); hide(completed_in);
    let all = made + b;
    assert forall|x: int| 0 <= x < all.len() implies written_in(t, start, end, #[trigger] all[x]) by { if x < made.len() { assert(all[x] == made[x]); } else { assert(all[x] == b[x - made.len()]); assert(commit_wrote(t, i, start, end, all[x])); } }
}
/// is lists the completed commits of the window
pub open spec fn selected(t: Timeline, start: Option<&str>, end: Option<&str>, is: Seq<Instant>) -> bool { forall|i: Instant| #[trigger] is.contains(i) <==> completed_in(t, i, start, end) && all_actions().contains(i.action) }
/// m holds exactly the groups which the first n of them replaced
pub open spec fn repl_keys(t: Timeline, is: Seq<Instant>, n: int, m: Map<GKey, FileGroup>) -> bool { forall|key: GKey| #[trigger] m.dom().contains(key) <==> repl_some(t, is, n, key) }
pub open spec fn keys_replaced(m: Map<Seq<char>, VValue>, gs: Map<GKey, FileGroup>) -> bool { forall|key: GKey| #[trigger] gs.dom().contains(key) <==> replaces(m, key) }
pub proof fn lemma_repl_next(t: Timeline, is: Seq<Instant>, n: int, rk: Map<GKey, FileGroup>)
    requires 0 <= n < is.len(), repl_keys(t, is, n, rk)
    ensures is[n].action != Action::ReplaceCommit ==> repl_keys(t, is, n + 1, rk),
        forall|g: VHSet<FileGroup>| is[n].action == Action::ReplaceCommit && meta_of(t, is[n]) is Some && keys_replaced(commit_metadata_(t, is[n]), g@) ==> repl_keys(t, is, n + 1, #[trigger] hset_add_all(rk, g.items()))
{
    hide(repl_some); hide(replaces);
    assert forall|key: GKey| true implies #[trigger] repl_some(t, is, n + 1, key) == (repl_some(t, is, n, key) || (is[n].action == Action::ReplaceCommit && (meta_of(t, is[n]) matches Some(m) && replaces(m, key)))) by { lemma_repl_step(t, is, n, key); }
    assert forall|g: VHSet<FileGroup>| is[n].action == Action::ReplaceCommit && meta_of(t, is[n]) is Some && keys_replaced(commit_metadata_(t, is[n]), g@) implies repl_keys(t, is, n + 1, #[trigger] hset_add_all(rk, g.items())) by { lemma_extend(rk, g); }
}
pub proof fn lemma_replaced(t: Timeline, start: Option<&str>, end: Option<&str>, is: Seq<Instant>)
    requires selected(t, start, end, is)
    ensures forall|key: GKey| #[trigger] repl_some(t, is, is.len() as int, key) <==> replaced_in(t, start, end, key)
{
    hide(completed_in);
    let n = is.len() as int;
    assert forall|key: GKey| #[trigger] repl_some(t, is, n, key) <==> replaced_in(t, start, end, key) by {
        if repl_some(t, is, n, key) { let i = choose|i: int| 0 <= i < n && (#[trigger] is[i]).action == Action::ReplaceCommit && (meta_of(t, is[i]) matches Some(m) && replaces(m, key)); assert(is.contains(is[i])); assert(replaced_by(t, is[i], start, end, key)); }
        if replaced_in(t, start, end, key) { let x = choose|x: Instant| #[trigger] replaced_by(t, x, start, end, key); assert(all_actions()[2] == Action::ReplaceCommit); assert(is.contains(x)); let i = choose|i: int| 0 <= i < is.len() && is[i] == x; assert(is[i].action == Action::ReplaceCommit); }
    }
}
/// what the loop needs at one commit: why each exit with an error is one, and what merging its groups means
pub proof fn lemma_at_commit(t: Timeline, start: Option<&str>, end: Option<&str>, made: Seq<FileGroup>, is: Seq<Instant>, n: int, i: Instant)
    requires all_written(t, start, end, made), selected(t, start, end, is), 0 <= n < is.len(), i == is[n]
    ensures unreadable_commit(t, i) ==> groups_lost(t, start, end), completed_in(t, i, start, end),
        forall|g: VHSet<FileGroup>| #[trigger] commit_groups(commit_metadata_(t, i), g@) && clashing(made + g.items()) && meta_of(t, i) is Some ==> groups_lost(t, start, end),
        forall|g: VHSet<FileGroup>, m: Map<GKey, FileGroup>| #[trigger] holds(made + g.items(), m) && commit_groups(commit_metadata_(t, i), g@) ==> exists|b: Seq<FileGroup>| made_from_stats(b, commit_metadata_(t, i)) && #[trigger] holds(made + b, m)
{
    hide(holds); hide(clashing); hide(all_written); hide(made_from_stats); hide(completed_in); hide(clash_in); hide(bad_commit); hide(bad_replace);
    assert(is.contains(is[n]));
    assert(unreadable_commit(t, i) ==> unreadable_commit_in(t, start, end));
    assert forall|g: VHSet<FileGroup>| #[trigger] commit_groups(commit_metadata_(t, i), g@) && clashing(made + g.items()) && meta_of(t, i) is Some implies groups_lost(t, start, end) by {
        let b = choose|b: Seq<FileGroup>| #[trigger] made_from_stats(b, commit_metadata_(t, i)) && holds(b, g@); lemma_clash_trans(made, g@, g.items(), b); lemma_clash_in(t, start, end, made, b, i); }
    assert forall|g: VHSet<FileGroup>, m: Map<GKey, FileGroup>| #[trigger] holds(made + g.items(), m) && commit_groups(commit_metadata_(t, i), g@) implies exists|b: Seq<FileGroup>| made_from_stats(b, commit_metadata_(t, i)) && #[trigger] holds(made + b, m) by {
        let b = choose|b: Seq<FileGroup>| #[trigger] made_from_stats(b, commit_metadata_(t, i)) && holds(b, g@); lemma_holds_trans(made, g@, g.items(), b, m); }
}
pub proof fn lemma_collects()
    ensures forall|xs: Seq<FileGroup>, m: Map<GKey, FileGroup>| #[trigger] hset_lists(xs, m) ==> hset_add_all(Map::<GKey, FileGroup>::empty(), xs) == m,
        forall|ys: Seq<&FileGroup>, zs: Seq<FileGroup>| #![trigger derefs(ys), hset_add_all(Map::<GKey, FileGroup>::empty(), zs)] ys.len() == zs.len() && (forall|i: int| 0 <= i < zs.len() ==> cloned(*ys[i], #[trigger] zs[i])) ==> derefs(ys) == zs
{
    assert forall|xs: Seq<FileGroup>, m: Map<GKey, FileGroup>| #[trigger] hset_lists(xs, m) implies hset_add_all(Map::<GKey, FileGroup>::empty(), xs) == m by { lemma_collect(xs, m); }
    assert forall|ys: Seq<&FileGroup>, zs: Seq<FileGroup>| #![trigger derefs(ys), hset_add_all(Map::<GKey, FileGroup>::empty(), zs)] ys.len() == zs.len() && (forall|i: int| 0 <= i < zs.len() ==> cloned(*ys[i], #[trigger] zs[i])) implies derefs(ys) == zs by { assert forall|i: int| 0 <= i < zs.len() implies derefs(ys)[i] == zs[i] by { assert(cloned(*ys[i], zs[i])); } assert(derefs(ys) =~= zs); }
}
pub proof fn lemma_between(t: Timeline, start: Option<&str>, end: Option<&str>, is: Seq<Instant>, made: Seq<FileGroup>, all: Map<GKey, FileGroup>, rk: Map<GKey, FileGroup>)
    requires selected(t, start, end, is),
        made_from_instants(made, t, is, is.len() as int), holds(made, all),
        repl_keys(t, is, is.len() as int, rk)
    ensures groups_between(t, start, end, all.remove_keys(rk.dom()))
{
    hide(all_actions); hide(holds); hide(completed_in); hide(made_from_instants); hide(repl_some); hide(replaced_in);
    lemma_replaced(t, start, end, is);
    let g = all.remove_keys(rk.dom());
    assert(window_groups(t, start, end, g, is, made, all));
}
//@fn crates/core/src/timeline/mod.rs Timeline::get_file_groups_between
@loops 1
@spec
    requires sorted_timeline(self.completed_commits@)
    ensures match ret { Ok(gs) => groups_between(*self, start_timestamp, end_timestamp, gs@),
        Err(_) => groups_lost(*self, start_timestamp, end_timestamp) }
@start
    proof { assert(!opt_bound_ok(start_timestamp, config_tz(*self.hudi_configs)) || !opt_bound_ok(end_timestamp, config_tz(*self.hudi_configs)) ==> groups_lost(*self, start_timestamp, end_timestamp)); }
@loop 0 pre
    let ghost is = vx_it0@; let ghost mut n: int = 0; let ghost mut made: Seq<FileGroup> = Seq::empty();
    proof { reveal(all_actions); reveal(wants_action); lemma_selected(*self, selector, start_timestamp, end_timestamp, is); assert(selector.actions@ =~= all_actions());
        assert(selected(*self, start_timestamp, end_timestamp, is)) by { reveal(selected); assert forall|i: Instant| #[trigger] is.contains(i) <==> completed_in(*self, i, start_timestamp, end_timestamp) && all_actions().contains(i.action) by { assert(selector.actions@ == all_actions()); assert(wants_action(selector, i.action) <==> all_actions().contains(i.action)); } }
        assert(made_from_instants(made, *self, is, 0)) by { reveal(made_from_instants); } assert(holds(made, file_groups@)) by { reveal(holds); } assert(all_written(*self, start_timestamp, end_timestamp, made)) by { reveal(all_written); }
        assert(repl_keys(*self, is, 0, replaced_file_groups@)) by { reveal(repl_some); reveal(repl_keys); } }
@loop 0
    invariant 0 <= n <= is.len(), vx_it0@ == is.subrange(n, is.len() as int), made_from_instants(made, *self, is, n), holds(made, file_groups@), all_written(*self, start_timestamp, end_timestamp, made),
        selected(*self, start_timestamp, end_timestamp, is), repl_keys(*self, is, n, replaced_file_groups@),
    ensures n == is.len()
    decreases vx_it0@.len()
@loop 0 start
    proof {
        assert(commit == is[n]); assert(is.subrange(n, is.len() as int).drop_first() =~= is.subrange(n + 1, is.len() as int));
        lemma_at_commit(*self, start_timestamp, end_timestamp, made, is, n, is[n]); lemma_repl_next(*self, is, n, replaced_file_groups@);
        assert(meta_of(*self, is[n]) matches Some(m) ==> m == commit_metadata_(*self, is[n]));
    }
@loop 0 end
    proof {
        let b = choose|b: Seq<FileGroup>| made_from_stats(b, commit_metadata_(*self, is[n])) && #[trigger] holds(made + b, file_groups@);
        lemma_made_step(made, b, *self, is, n); lemma_written(*self, start_timestamp, end_timestamp, made, b, is[n]);
        made = made + b; n = n + 1;
    }
@loop 0 post
    proof { lemma_between(*self, start_timestamp, end_timestamp, is, made, file_groups@, replaced_file_groups@); lemma_collects(); }
//@end
pub open spec fn commit_metadata_(t: Timeline, i: Instant) -> Map<Seq<char>, VValue> { meta_of(t, i)->Some_0 }

// ---- table-level planning -------------------------------------------------------------------------
#[verifier::external_body] pub struct PartitionPruner { }
#[verifier::external_body] pub struct Filter { }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VDash<K, V> { _p: core::marker::PhantomData<(K, V)> }
//@rule path DashMap VDash
//@type crates/core/src/table/fs_view.rs FileSystemView
//@type crates/core/src/table/mod.rs Table
//@type crates/core/src/timeline/mod.rs EARLIEST_START_TIMESTAMP
impl Table { pub open spec fn wf(self) -> bool { sorted_timeline(self.timeline.completed_commits@) } }
pub open spec fn slice_as_of(g: FileGroup, t: Seq<char>, s: FileSlice) -> bool { exists|k: Seq<char>| #[trigger] newest(g.file_slices@, t, k) && s == g.file_slices@[k] }
/// v: for each of the first n groups that has a slice as of t, its newest one, once
pub open spec fn planned(xs: Seq<FileGroup>, n: int, t: Seq<char>, v: Seq<FileSlice>, src: Seq<int>) -> bool {
    &&& v.len() == src.len()
    &&& forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] src[i] < n && slice_as_of(xs[src[i]], t, v[i])
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] src[i] < #[trigger] src[j]
    &&& forall|j: int| 0 <= j < n ==> src.contains(j) || all_later((#[trigger] xs[j]).file_slices@, t)
}
/// the slices planned for the groups of gs
pub open spec fn planned_for(gs: Map<GKey, FileGroup>, t: Seq<char>, v: Seq<FileSlice>) -> bool { exists|xs: Seq<FileGroup>, src: Seq<int>| hset_lists(xs, gs) && #[trigger] planned(xs, xs.len() as int, t, v, src) }
pub open spec fn incremental_plan(t: Timeline, start: Seq<char>, end: Seq<char>, v: Seq<FileSlice>) -> bool {
    exists|gs: Map<GKey, FileGroup>, s: &str, e: &str| s@ == start && e@ == end && #[trigger] groups_between(t, Some(s), Some(e), gs) && planned_for(gs, end, v)
}
pub proof fn lemma_planned_push(xs: Seq<FileGroup>, n: int, t: Seq<char>, v: Seq<FileSlice>, src: Seq<int>, s: FileSlice)
    requires planned(xs, n, t, v, src), 0 <= n < xs.len(), slice_as_of(xs[n], t, s)
    ensures planned(xs, n + 1, t, v.push(s), src.push(n))
{
    let r = src.push(n);
    assert forall|j: int| 0 <= j < n + 1 implies r.contains(j) || all_later((#[trigger] xs[j]).file_slices@, t) by { if j < n { if src.contains(j) { let i = choose|i: int| 0 <= i < src.len() && src[i] == j; assert(r[i] == j); } } else { assert(r[src.len() as int] == n); } }
}
/// the window's commits cannot be planned: a bound denotes no time, a commit's metadata cannot be used, or commits disagree
pub open spec fn window_lost(t: Timeline, start: Seq<char>, end: Seq<char>) -> bool { exists|s: &str, e: &str| s@ == start && e@ == end && #[trigger] groups_lost(t, Some(s), Some(e)) }
//@fn crates/core/src/table/mod.rs Table::get_file_slices_between_internal
@loops 1
@spec
    requires self.wf()
    ensures match ret { Ok(v) => incremental_plan(self.timeline, start_timestamp@, end_timestamp@, v@), Err(_) => window_lost(self.timeline, start_timestamp@, end_timestamp@) }
@start
    proof { assert(groups_lost(self.timeline, Some(start_timestamp), Some(end_timestamp)) ==> window_lost(self.timeline, start_timestamp@, end_timestamp@)); }
@loop 0 pre
    let ghost gs = file_groups@; let ghost xs = vx_it0@; let ghost mut n: int = 0; let ghost mut src: Seq<int> = Seq::empty();
@loop 0
    invariant 0 <= n <= xs.len(), vx_it0@ == xs.subrange(n, xs.len() as int), hset_lists(xs, gs), planned(xs, n, end_timestamp@, file_slices@, src),
    ensures n == xs.len()
    decreases vx_it0@.len()
@loop 0 start
    let ghost pre = file_slices@;
    proof { assert(file_group == xs[n]); assert(xs.subrange(n, xs.len() as int).drop_first() =~= xs.subrange(n + 1, xs.len() as int)); }
@loop 0 end
    proof {
        if file_slices@.len() > pre.len() { let s = file_slices@.last(); assert(file_slices@ =~= pre.push(s)); lemma_planned_push(xs, n, end_timestamp@, pre, src, s); src = src.push(n); }
        n = n + 1;
    }
@loop 0 post
    proof { assert(planned_for(gs, end_timestamp@, file_slices@)); assert(groups_between(self.timeline, Some(start_timestamp), Some(end_timestamp), gs)); }
//@end
//@fn crates/core/src/table/mod.rs Table::get_file_slices_between
@rule method or_else vx_or_else
@closure 0
    || -> (r: Option<&str>) ensures match r { None => self.timeline.completed_commits@.len() == 0, Some(t) => self.timeline.completed_commits@.len() > 0 && t@ == self.timeline.completed_commits@.last().timestamp@ }
@spec
    requires self.wf()
    ensures ret is Err ==> match end_timestamp { Some(e) => window_lost(self.timeline, match start_timestamp { Some(s) => s@, None => EARLIEST_START_TIMESTAMP@ }, e@),
            None => self.timeline.completed_commits@.len() > 0 && window_lost(self.timeline, match start_timestamp { Some(s) => s@, None => EARLIEST_START_TIMESTAMP@ }, self.timeline.completed_commits@.last().timestamp@) },
        ret matches Ok(v) ==> match end_timestamp {
        Some(e) => incremental_plan(self.timeline, match start_timestamp { Some(s) => s@, None => EARLIEST_START_TIMESTAMP@ }, e@, v@),
        None => if self.timeline.completed_commits@.len() == 0 { v@.len() == 0 } else { incremental_plan(self.timeline, match start_timestamp { Some(s) => s@, None => EARLIEST_START_TIMESTAMP@ }, self.timeline.completed_commits@.last().timestamp@, v@) } }
//@end

//@prop C16
/// the slices in order, cut into parts of equal size but the last, none empty, at most max(1, n) of them
pub open spec fn split_of(s: Seq<FileSlice>, n: int, parts: Seq<Seq<FileSlice>>) -> bool {
    &&& flat(parts, parts.len() as int) == s
    &&& forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts[i]).len() > 0
    &&& parts.len() <= (if n < 1 { 1 } else { n })
    &&& forall|i: int, j: int| 0 <= i < parts.len() - 1 && 0 <= j < parts.len() ==> (#[trigger] parts[j]).len() <= (#[trigger] parts[i]).len()
    &&& forall|i: int, j: int| 0 <= i < parts.len() - 1 && 0 <= j < parts.len() - 1 ==> (#[trigger] parts[j]).len() == (#[trigger] parts[i]).len()
}
/// the first n parts put together
pub open spec fn flat<T>(parts: Seq<Seq<T>>, n: int) -> Seq<T> decreases n { if n <= 0 { Seq::empty() } else { flat(parts, n - 1) + parts[n - 1] } }
pub proof fn lemma_flat_chunks(s: Seq<FileSlice>, c: int, parts: Seq<Seq<FileSlice>>, n: int)
    requires c > 0, parts.len() == chunk_count(s.len() as int, c), forall|i: int| 0 <= i < parts.len() ==> #[trigger] parts[i] == chunk(s, c, i), 0 <= n <= parts.len()
    ensures flat(parts, n) == s.subrange(0, if n * c <= s.len() { n * c } else { s.len() as int })
    decreases n
{
    if n > 0 {
        lemma_flat_chunks(s, c, parts, n - 1);
        assert((n - 1) * c < s.len()) by (nonlinear_arith) requires c > 0, n <= (s.len() + c - 1) / c, n > 0, s.len() >= 0;
        assert((n - 1) * c + c == n * c) by (nonlinear_arith);
        assert(0 <= (n - 1) * c) by (nonlinear_arith) requires n > 0, c > 0;
        assert(parts[n - 1] == chunk(s, c, n - 1));
        assert(flat(parts, n) =~= s.subrange(0, if n * c <= s.len() { n * c } else { s.len() as int }));
    } else { assert(s.subrange(0, 0) =~= Seq::<FileSlice>::empty()); assert(0 * c == 0) by (nonlinear_arith); }
}
pub proof fn lemma_split(s: Seq<FileSlice>, n: int, c: int, parts: Seq<Seq<FileSlice>>)
    requires s.len() > 0, n >= 1, c == (s.len() + n - 1) / n, parts.len() == chunk_count(s.len() as int, c), forall|i: int| 0 <= i < parts.len() ==> #[trigger] parts[i] == chunk(s, c, i)
    ensures split_of(s, n, parts)
{
    let len = s.len() as int;
    assert(c >= 1) by (nonlinear_arith) requires len > 0, n >= 1, c == (len + n - 1) / n;
    assert(c * n >= len) by (nonlinear_arith) requires len > 0, n >= 1, c == (len + n - 1) / n;
    assert(parts.len() <= n) by (nonlinear_arith) requires c >= 1, c * n >= len, parts.len() == (len + c - 1) / c, len > 0, n >= 1;
    assert(parts.len() * c >= len) by (nonlinear_arith) requires c >= 1, parts.len() == (len + c - 1) / c;
    lemma_flat_chunks(s, c, parts, parts.len() as int);
    assert(s.subrange(0, len) =~= s);
    assert forall|i: int| 0 <= i < parts.len() implies (#[trigger] parts[i]).len() > 0 && (i < parts.len() - 1 ==> parts[i].len() == c) && parts[i].len() <= c by {
        assert(i * c < len) by (nonlinear_arith) requires c >= 1, i < (len + c - 1) / c, i >= 0, len > 0;
        assert((i + 1) * c == i * c + c) by (nonlinear_arith);
        if i < parts.len() - 1 { assert((i + 1) * c < len) by (nonlinear_arith) requires c >= 1, i + 1 < (len + c - 1) / c, i >= 0, len > 0; }
    }
}

//@prop C05
// ---- the view of file groups -----------------------------------------------------------------------
// The DashMap is shared: an entry once inserted stays, every value inserted satisfies the map's
// invariant, and iteration yields some entry for every key inserted before it.
pub type Groups = Vec<FileGroup>;
impl VDash<String, Groups> {
    pub uninterp spec fn inv(&self, k: Seq<char>, v: Seq<FileGroup>) -> bool;
    pub uninterp spec fn has_key(&self, k: Seq<char>) -> bool;
    #[verifier::external_body] pub fn insert(&self, k: String, v: Groups) -> (r: Option<Groups>) requires self.inv(k@, v@) ensures self.has_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter_mut<'a>(&'a self) -> (r: VIter<VDashRef>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.inv((#[trigger] r@[i]).k(), r@[i].v()),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).k() != (#[trigger] r@[j]).k(),
            forall|k: Seq<char>| #[trigger] self.has_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).k() == k { unimplemented!() }
}
/// dashmap's RefMutMulti
pub struct VDashRef { pub key_: String, pub val_: Groups }
impl VDashRef {
    pub open spec fn k(self) -> Seq<char> { self.key_@ }
    pub open spec fn v(self) -> Seq<FileGroup> { self.val_@ }
    pub fn key(&self) -> (r: &String) ensures r@ == self.k() { &self.key_ }
    pub fn value_mut(&mut self) -> (r: &mut Groups) ensures r@ == old(self).v(), *final(r) == final(self).val_, final(self).key_ == old(self).key_ { &mut self.val_ }
}
pub trait VxIterMut<T> { fn vx_iter_mut<'a>(&'a mut self) -> VIter<&'a mut T>; }
impl<T> VxIterMut<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_iter_mut<'a>(&'a mut self) -> (r: VIter<&'a mut T>) ensures r@.len() == old(self)@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(self)@[i] { unimplemented!() }
}
impl PartitionPruner {
    /// does the pruner let the path through (decided in partition.inc, C13)
    pub uninterp spec fn lets(&self, path: Seq<char>) -> bool;
    pub open spec fn no_filters(&self) -> bool { forall|p: Seq<char>| #[trigger] self.lets(p) }
    #[verifier::external_body] pub fn should_include(&self, partition_path: &str) -> (r: bool) ensures r == self.lets(partition_path@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r ==> self.no_filters() { unimplemented!() }
}
impl Clone for PartitionPruner { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the same slice; the base file's size and row counts may have been looked up
pub open spec fn alike(a: FileSlice, b: FileSlice) -> bool {
    &&& a.partition_path == b.partition_path && a.log_files == b.log_files
    &&& a.base_file.file_id == b.base_file.file_id && a.base_file.write_token == b.base_file.write_token && a.base_file.commit_timestamp == b.base_file.commit_timestamp && a.base_file.extension == b.base_file.extension
}
/// the size and row counts of a base file cannot be read (storage.inc)
pub uninterp spec fn footer_lost(st: Storage, path: Seq<char>) -> bool;
pub uninterp spec fn slice_path(s: FileSlice) -> Seq<char>;
impl Storage { #[verifier::external_body] pub fn get_file_metadata(&self, p: &str) -> (r: Result<FileMetadata>) ensures r is Err ==> footer_lost(*self, p@) { unimplemented!() } }
impl FileSlice { #[verifier::external_body] pub fn base_file_relative_path(&self) -> (r: Result<String>) ensures r matches Ok(p) && p@ == slice_path(*self) /* reader.inc */ { unimplemented!() } }
//@fn crates/core/src/file_group/file_slice.rs FileSlice::load_metadata_if_needed
@spec
    ensures alike(*old(self), *final(self)), ret is Err ==> footer_lost(*storage, slice_path(*old(self)))
//@end
pub type Entries = Seq<(Seq<char>, Seq<FileGroup>)>;
pub open spec fn wanted(e: Entries, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>, a: int, b: int) -> bool {
    0 <= a < e.len() && 0 <= b < e[a].1.len() && pr.lets(e[a].0) && !ex.dom().contains(e[a].1[b].k()) && !all_later(e[a].1[b].file_slices@, t)
}
pub open spec fn newest_of(g: FileGroup, t: Seq<char>, s: FileSlice) -> bool { exists|k: Seq<char>| #[trigger] newest(g.file_slices@, t, k) && alike(g.file_slices@[k], s) }
pub open spec fn lex(x: (int, int), y: (int, int)) -> bool { x.0 < y.0 || (x.0 == y.0 && x.1 < y.1) }
/// v: the newest slice as of t of every wanted group before position (n, m), each once
pub open spec fn view_plan(e: Entries, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>, n: int, m: int, v: Seq<FileSlice>, src: Seq<(int, int)>) -> bool {
    &&& v.len() == src.len()
    &&& forall|i: int| 0 <= i < v.len() ==> lex(#[trigger] src[i], (n, m)) && wanted(e, t, pr, ex, src[i].0, src[i].1) && newest_of(e[src[i].0].1[src[i].1], t, v[i])
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> lex(#[trigger] src[i], #[trigger] src[j])
    &&& forall|a: int, b: int| lex((a, b), (n, m)) && #[trigger] wanted(e, t, pr, ex, a, b) ==> src.contains((a, b))
}
pub proof fn lemma_view_skip(e: Entries, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>, n: int, m: int, v: Seq<FileSlice>, src: Seq<(int, int)>)
    requires view_plan(e, t, pr, ex, n, m, v, src), !wanted(e, t, pr, ex, n, m)
    ensures view_plan(e, t, pr, ex, n, m + 1, v, src)
{}
pub proof fn lemma_view_push(e: Entries, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>, n: int, m: int, v: Seq<FileSlice>, src: Seq<(int, int)>, s: FileSlice)
    requires view_plan(e, t, pr, ex, n, m, v, src), wanted(e, t, pr, ex, n, m), newest_of(e[n].1[m], t, s)
    ensures view_plan(e, t, pr, ex, n, m + 1, v.push(s), src.push((n, m)))
{
    let r = src.push((n, m));
    assert forall|a: int, b: int| lex((a, b), (n, m + 1)) && #[trigger] wanted(e, t, pr, ex, a, b) implies r.contains((a, b)) by { if lex((a, b), (n, m)) { let i = choose|i: int| 0 <= i < src.len() && src[i] == (a, b); assert(r[i] == (a, b)); } else { assert(r[src.len() as int] == (n, m)); } }
}
pub proof fn lemma_view_next(e: Entries, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>, n: int, m: int, v: Seq<FileSlice>, src: Seq<(int, int)>)
    requires view_plan(e, t, pr, ex, n, m, v, src), 0 <= n < e.len(), m >= e[n].1.len() || !pr.lets(e[n].0)
    ensures view_plan(e, t, pr, ex, n + 1, 0, v, src)
{
    assert forall|i: int| 0 <= i < v.len() implies lex(#[trigger] src[i], (n + 1, 0)) by { assert(lex(src[i], (n, m))); }
    assert forall|a: int, b: int| lex((a, b), (n + 1, 0)) && #[trigger] wanted(e, t, pr, ex, a, b) implies src.contains((a, b)) by { assert(lex((a, b), (n, m))); }
}
impl FileSystemView {
    /// what its entries are: partitions of the table with the groups listed there
    pub open spec fn wf(self) -> bool { forall|k: Seq<char>, v: Seq<FileGroup>| #[trigger] self.partition_to_file_groups.inv(k, v) <==> view_entry(*self.storage, *self.hudi_configs, k, v) }
}
pub open spec fn entries_of(s: Seq<VDashRef>) -> Entries { Seq::new(s.len(), |i: int| (s[i].k(), s[i].v())) }
pub open spec fn view_entries(f: FileSystemView, e: Entries) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> f.partition_to_file_groups.inv((#[trigger] e[i]).0, e[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
    &&& forall|k: Seq<char>| #[trigger] f.partition_to_file_groups.has_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
pub open spec fn view_slices(f: FileSystemView, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>, v: Seq<FileSlice>) -> bool {
    exists|e: Entries, src: Seq<(int, int)>| view_entries(f, e) && #[trigger] view_plan(e, t, pr, ex, e.len() as int, 0, v, src)
}
pub open spec fn view_lost(f: FileSystemView, t: Seq<char>, pr: PartitionPruner, ex: Map<GKey, FileGroup>) -> bool {
    exists|e: Entries, a: int, b: int, k: Seq<char>| view_entries(f, e) && #[trigger] wanted(e, t, pr, ex, a, b) && #[trigger] newest(e[a].1[b].file_slices@, t, k) && footer_lost(*f.storage, slice_path(e[a].1[b].file_slices@[k]))
}
//@fn crates/core/src/table/fs_view.rs FileSystemView::collect_file_slices_as_of
@rule method iter_mut vx_iter_mut
@loops 2
@spec
    ensures match ret { Ok(v) => view_slices(*self, timestamp@, *partition_pruner, excluding_file_groups@, v@), Err(_) => view_lost(*self, timestamp@, *partition_pruner, excluding_file_groups@) }
@loop 0 pre
    let ghost es = entries_of(vx_it0@); let ghost mut n: int = 0; let ghost mut m: int = 0; let ghost mut src: Seq<(int, int)> = Seq::empty();
    let ghost ex = excluding_file_groups@; let ghost pr = *partition_pruner;
    proof { assert(view_entries(*self, es)) by { assert forall|k: Seq<char>| #[trigger] self.partition_to_file_groups.has_key(k) implies exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k by { let i = choose|i: int| 0 <= i < vx_it0@.len() && (#[trigger] vx_it0@[i]).k() == k; assert(es[i].0 == k); }
        assert forall|i: int| 0 <= i < es.len() implies self.partition_to_file_groups.inv((#[trigger] es[i]).0, es[i].1) by { assert(es[i].0 == vx_it0@[i].k()); } } }
@loop 0
    invariant view_entries(*self, es), 0 <= n <= es.len(), vx_it0@.len() == es.len() - n, forall|j: int| 0 <= j < vx_it0@.len() ==> (#[trigger] vx_it0@[j]).k() == es[n + j].0 && vx_it0@[j].v() == es[n + j].1, ex == excluding_file_groups@, pr == *partition_pruner,
        view_plan(es, timestamp@, pr, ex, n, 0, file_slices@, src),
    ensures n == es.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(partition_entry.k() == es[n].0 && partition_entry.v() == es[n].1); m = 0;
        if !pr.lets(es[n].0) { lemma_view_next(es, timestamp@, pr, ex, n, 0, file_slices@, src); n = n + 1; } }
@loop 1 pre
    let ghost gs = es[n].1;
@loop 1
    invariant view_entries(*self, es), 0 <= n < es.len(), gs == es[n].1, 0 <= m <= gs.len(), vx_it1@.len() == gs.len() - m, forall|j: int| 0 <= j < vx_it1@.len() ==> *(#[trigger] vx_it1@[j]) == gs[m + j], ex == excluding_file_groups@, pr == *partition_pruner, pr.lets(es[n].0),
        view_plan(es, timestamp@, pr, ex, n, m, file_slices@, src),
    ensures m == gs.len()
    decreases vx_it1@.len()
@loop 1 start
    let ghost g0 = *fg; let ghost pre = file_slices@;
    proof { assert(g0 == gs[m]); if ex.dom().contains(g0.k()) { lemma_view_skip(es, timestamp@, pr, ex, n, m, file_slices@, src); m = m + 1; } }
@before fsl.load_metadata_if_needed
    proof { let k = choose|k: Seq<char>| #[trigger] newest(g0.file_slices@, timestamp@, k) && *fsl == g0.file_slices@[k]; assert(wanted(es, timestamp@, pr, ex, n, m)); assert(newest(es[n].1[m].file_slices@, timestamp@, k)); }
@loop 1 end
    proof {
        if file_slices@.len() > pre.len() { let s = file_slices@.last(); assert(file_slices@ =~= pre.push(s)); lemma_view_push(es, timestamp@, pr, ex, n, m, pre, src, s); src = src.push((n, m)); } else { lemma_view_skip(es, timestamp@, pr, ex, n, m, pre, src); }
        m = m + 1;
    }
@loop 0 end
    proof { lemma_view_next(es, timestamp@, pr, ex, n, m, file_slices@, src); n = n + 1; }
//@end

//@prop C21 C05
// ---- listing a partition ---------------------------------------------------------------------------
pub struct BaseFileFormat;
pub open spec fn base_ext(h: HudiConfigs) -> Seq<char> { cfg_to::<String>(cfg_val(h, BaseFileFormat))@ }
//@type crates/core/src/table/partition.rs PARTITION_METAFIELD_PREFIX ensures PARTITION_METAFIELD_PREFIX@ == ".hoodie_partition_metadata"@
//@type crates/core/src/table/partition.rs EMPTY_PARTITION_PATH ensures EMPTY_PARTITION_PATH@ == ""@
//@type crates/core/src/table/listing.rs FileLister
pub open spec fn hidden(n: Seq<char>) -> bool { is_prefix(".hoodie_partition_metadata"@, n) || is_suffix(".crc"@, n) || is_suffix(".cdc"@, n) }
//@fn crates/core/src/table/listing.rs FileLister::should_exclude_for_listing
@rule method starts_with vx_starts_with
@rule method ends_with vx_ends_with
@spec
    ensures ret == hidden(file_name@)
//@end
pub open spec fn base_like(n: Seq<char>, ext: Seq<char>) -> bool { !hidden(n) && is_suffix(seq!['.'] + ext, n) }
/// b is the base file, l the log file, that one of the first n names denotes
#[verifier::opaque]
pub open spec fn b_file(names: Seq<Seq<char>>, n: int, ext: Seq<char>, b: BaseFile) -> bool { exists|k: int| 0 <= k < n && base_like(names[k], ext) && base_of(#[trigger] names[k], b) }
#[verifier::opaque]
pub open spec fn l_file(names: Seq<Seq<char>>, n: int, ext: Seq<char>, l: LogFile) -> bool { exists|k: int| 0 <= k < n && !hidden(names[k]) && !base_like(names[k], ext) && log_of(#[trigger] names[k], l) }
pub open spec fn bk(b: BaseFile) -> (Seq<char>, Seq<char>, Seq<char>, Seq<char>) { (b.file_id@, b.write_token@, b.commit_timestamp@, b.extension@) }
#[verifier::opaque]
pub open spec fn has_base(xs: Seq<BaseFile>, b: BaseFile) -> bool { exists|j: int| 0 <= j < xs.len() && bk(#[trigger] xs[j]) == bk(b) }
#[verifier::opaque]
pub open spec fn has_logk(xs: Seq<LogFile>, l: LogFile) -> bool { exists|j: int| 0 <= j < xs.len() && lk(#[trigger] xs[j]) == lk(l) }
/// the base files, the log files, of the first n names, by file id
pub open spec fn bmap(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<BaseFile>>) -> bool {
    &&& forall|id: Seq<char>, j: int| m.dom().contains(id) && 0 <= j < m[id]@.len() ==> b_file(names, n, ext, #[trigger] m[id]@[j]) && m[id]@[j].file_id@ == id
    &&& forall|b: BaseFile| #[trigger] b_file(names, n, ext, b) ==> m.dom().contains(b.file_id@) && has_base(m[b.file_id@]@, b)
}
pub open spec fn lmap(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<LogFile>>) -> bool {
    &&& forall|id: Seq<char>, j: int| m.dom().contains(id) && 0 <= j < m[id]@.len() ==> l_file(names, n, ext, #[trigger] m[id]@[j]) && m[id]@[j].file_id@ == id
    &&& forall|l: LogFile| #[trigger] l_file(names, n, ext, l) ==> m.dom().contains(l.file_id@) && has_logk(m[l.file_id@]@, l)
}
pub proof fn lemma_base_same(n: Seq<char>, a: BaseFile, b: BaseFile) requires base_of(n, a), base_of(n, b) ensures bk(a) == bk(b)
{ base_unique(n, a.file_id@, a.write_token@, a.commit_timestamp@, a.extension@, b.file_id@, b.write_token@, b.commit_timestamp@, b.extension@); }
pub proof fn lemma_log_same(n: Seq<char>, a: LogFile, b: LogFile) requires log_of(n, a), log_of(n, b) ensures lk(a) == lk(b)
{ log_unique(a.file_id@, a.base_commit_timestamp@, a.extension@, a.version@, a.write_token@, b.file_id@, b.base_commit_timestamp@, b.extension@, b.version@, b.write_token@); }
pub proof fn lemma_bmap_skip(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<BaseFile>>)
    requires 0 <= n < names.len(), bmap(names, n, ext, m), !base_like(names[n], ext)
    ensures bmap(names, n + 1, ext, m)
{
    reveal(b_file);
    assert forall|b: BaseFile| #[trigger] b_file(names, n + 1, ext, b) implies b_file(names, n, ext, b) by { let k = choose|k: int| 0 <= k < n + 1 && base_like(names[k], ext) && base_of(#[trigger] names[k], b); assert(k < n); }
    assert forall|b: BaseFile| #[trigger] b_file(names, n, ext, b) implies b_file(names, n + 1, ext, b) by { let k = choose|k: int| 0 <= k < n && base_like(names[k], ext) && base_of(#[trigger] names[k], b); assert(base_of(names[k], b)); }
}
pub proof fn lemma_bmap_push(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<BaseFile>>, b: BaseFile, v: Vec<BaseFile>)
    requires 0 <= n < names.len(), bmap(names, n, ext, m), base_like(names[n], ext), base_of(names[n], b), v@ == (if m.dom().contains(b.file_id@) { m[b.file_id@]@ } else { Seq::empty() }).push(b)
    ensures bmap(names, n + 1, ext, m.insert(b.file_id@, v))
{
    reveal(b_file); reveal(has_base);
    let id = b.file_id@; let m2 = m.insert(id, v);
    let o = if m.dom().contains(id) { m[id]@ } else { Seq::empty() };
    assert forall|x: BaseFile| #[trigger] b_file(names, n, ext, x) implies b_file(names, n + 1, ext, x) by { let k = choose|k: int| 0 <= k < n && base_like(names[k], ext) && base_of(#[trigger] names[k], x); assert(base_of(names[k], x)); }
    assert(b_file(names, n + 1, ext, b)) by { assert(base_of(names[n], b)); }
    assert forall|i: Seq<char>, j: int| m2.dom().contains(i) && 0 <= j < m2[i]@.len() implies b_file(names, n + 1, ext, #[trigger] m2[i]@[j]) && m2[i]@[j].file_id@ == i by { if i == id { if j < o.len() { assert(v@[j] == m[id]@[j]); } else { assert(v@[j] == b); } } else { assert(b_file(names, n, ext, m[i]@[j])); } }
    assert forall|x: BaseFile| #[trigger] b_file(names, n + 1, ext, x) implies m2.dom().contains(x.file_id@) && has_base(m2[x.file_id@]@, x) by {
        let k = choose|k: int| 0 <= k < n + 1 && base_like(names[k], ext) && base_of(#[trigger] names[k], x);
        if k == n { lemma_base_same(names[n], x, b); assert(bk(v@[o.len() as int]) == bk(x)); }
        else { assert(b_file(names, n, ext, x)); assert(has_base(m[x.file_id@]@, x)); if x.file_id@ == id { let j = choose|j: int| 0 <= j < o.len() && bk(#[trigger] o[j]) == bk(x); assert(v@[j] == o[j]); } }
    }
}
pub proof fn lemma_lmap_skip(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<LogFile>>)
    requires 0 <= n < names.len(), lmap(names, n, ext, m), hidden(names[n]) || base_like(names[n], ext) || no_log(names[n])
    ensures lmap(names, n + 1, ext, m)
{
    reveal(l_file);
    assert forall|b: LogFile| #[trigger] l_file(names, n + 1, ext, b) implies l_file(names, n, ext, b) by { let k = choose|k: int| 0 <= k < n + 1 && !hidden(names[k]) && !base_like(names[k], ext) && log_of(#[trigger] names[k], b); assert(k < n); }
    assert forall|b: LogFile| #[trigger] l_file(names, n, ext, b) implies l_file(names, n + 1, ext, b) by { let k = choose|k: int| 0 <= k < n && !hidden(names[k]) && !base_like(names[k], ext) && log_of(#[trigger] names[k], b); assert(log_of(names[k], b)); }
}
pub proof fn lemma_lmap_push(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<LogFile>>, b: LogFile, v: Vec<LogFile>)
    requires 0 <= n < names.len(), lmap(names, n, ext, m), !hidden(names[n]), !base_like(names[n], ext), log_of(names[n], b), v@ == (if m.dom().contains(b.file_id@) { m[b.file_id@]@ } else { Seq::empty() }).push(b)
    ensures lmap(names, n + 1, ext, m.insert(b.file_id@, v))
{
    reveal(l_file); reveal(has_logk);
    let id = b.file_id@; let m2 = m.insert(id, v);
    let o = if m.dom().contains(id) { m[id]@ } else { Seq::empty() };
    assert forall|x: LogFile| #[trigger] l_file(names, n, ext, x) implies l_file(names, n + 1, ext, x) by { let k = choose|k: int| 0 <= k < n && !hidden(names[k]) && !base_like(names[k], ext) && log_of(#[trigger] names[k], x); assert(log_of(names[k], x)); }
    assert(l_file(names, n + 1, ext, b)) by { assert(log_of(names[n], b)); }
    assert forall|i: Seq<char>, j: int| m2.dom().contains(i) && 0 <= j < m2[i]@.len() implies l_file(names, n + 1, ext, #[trigger] m2[i]@[j]) && m2[i]@[j].file_id@ == i by { if i == id { if j < o.len() { assert(v@[j] == m[id]@[j]); } else { assert(v@[j] == b); } } else { assert(l_file(names, n, ext, m[i]@[j])); } }
    assert forall|x: LogFile| #[trigger] l_file(names, n + 1, ext, x) implies m2.dom().contains(x.file_id@) && has_logk(m2[x.file_id@]@, x) by {
        let k = choose|k: int| 0 <= k < n + 1 && !hidden(names[k]) && !base_like(names[k], ext) && log_of(#[trigger] names[k], x);
        if k == n { lemma_log_same(names[n], x, b); assert(lk(v@[o.len() as int]) == lk(x)); }
        else { assert(l_file(names, n, ext, x)); assert(has_logk(m[x.file_id@]@, x)); if x.file_id@ == id { let j = choose|j: int| 0 <= j < o.len() && lk(#[trigger] o[j]) == lk(x); assert(v@[j] == o[j]); } }
    }
}
/// the group of one file id: a slice for each of its base files, with its log files
pub open spec fn group_of(p: Seq<char>, id: Seq<char>, bs: Seq<BaseFile>, ls: Seq<LogFile>, g: FileGroup) -> bool {
    g.file_id@ == id && g.partition_path@ == p && exists|g0: FileGroup, g1: FileGroup| g0.partition_path@ == p && g0.file_slices@ == Map::<Seq<char>, FileSlice>::empty() && #[trigger] bases_added(g0, bs, bs.len() as int, g1) && #[trigger] logs_added(g1, ls, ls.len() as int, g)
}
pub open spec fn base_served(gs: Seq<FileGroup>, b: BaseFile) -> bool { exists|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).file_id@ == b.file_id@ && gs[i].file_slices@.dom().contains(b.commit_timestamp@) && bk(gs[i].file_slices@[b.commit_timestamp@].base_file) == bk(b) }
pub open spec fn slice_listed(names: Seq<Seq<char>>, ext: Seq<char>, p: Seq<char>, id: Seq<char>, k: Seq<char>, s: FileSlice) -> bool {
    &&& b_file(names, names.len() as int, ext, s.base_file) && s.base_file.file_id@ == id && s.base_file.commit_timestamp@ == k && s.partition_path@ == p
    &&& forall|l: LogFile| #[trigger] s.log_files@.contains(l) ==> l_file(names, names.len() as int, ext, l) && l.file_id@ == id && l.base_commit_timestamp@ == k
}
/// gs: the files of the directory in their groups - each base file a slice, each log file of such a group with its base file, nothing else
pub open spec fn listed_groups(names: Seq<Seq<char>>, ext: Seq<char>, p: Seq<char>, gs: Seq<FileGroup>) -> bool {
    &&& forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).partition_path@ == p
    &&& forall|i: int, j: int| 0 <= i < j < gs.len() ==> (#[trigger] gs[i]).file_id@ != (#[trigger] gs[j]).file_id@
    &&& forall|b: BaseFile| #[trigger] b_file(names, names.len() as int, ext, b) ==> base_served(gs, b)
    &&& forall|i: int, k: Seq<char>| 0 <= i < gs.len() && #[trigger] gs[i].file_slices@.dom().contains(k) ==> slice_listed(names, ext, p, gs[i].file_id@, k, gs[i].file_slices@[k])
    &&& forall|l: LogFile, i: int| #![trigger l_file(names, names.len() as int, ext, l), gs[i]] l_file(names, names.len() as int, ext, l) && 0 <= i < gs.len() && gs[i].file_id@ == l.file_id@ ==> gs[i].file_slices@.dom().contains(l.base_commit_timestamp@) && has_log(gs[i].file_slices@[l.base_commit_timestamp@].log_files@, l)
}
/// the log files found under an id, if any
pub open spec fn logs_under(m: Map<Seq<char>, Vec<LogFile>>, id: Seq<char>) -> Seq<LogFile> { if m.dom().contains(id) { m[id]@ } else { Seq::empty() } }
pub open spec fn groups_built(p: Seq<char>, e: Seq<(String, Vec<BaseFile>)>, lm: Map<Seq<char>, Vec<LogFile>>, n: int, gs: Seq<FileGroup>) -> bool { gs.len() == n && forall|i: int| 0 <= i < n ==> group_of(p, e[i].0@, e[i].1@, logs_under(lm, e[i].0@), #[trigger] gs[i]) }
pub proof fn lemma_listed(names: Seq<Seq<char>>, ext: Seq<char>, p: Seq<char>, bm: Map<Seq<char>, Vec<BaseFile>>, lm: Map<Seq<char>, Vec<LogFile>>, e: Seq<(String, Vec<BaseFile>)>, gs: Seq<FileGroup>)
    requires bmap(names, names.len() as int, ext, bm), lmap(names, names.len() as int, ext, lm), groups_built(p, e, lm, e.len() as int, gs),
        forall|i: int| 0 <= i < e.len() ==> bm.dom().contains((#[trigger] e[i]).0@) && e[i].1 == bm[e[i].0@],
        forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@,
        forall|k: Seq<char>| #[trigger] bm.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0@ == k
    ensures listed_groups(names, ext, p, gs)
{
    let n = names.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < gs.len() implies (#[trigger] gs[i]).file_id@ != (#[trigger] gs[j]).file_id@ by { assert(e[i].0@ != e[j].0@); }
    assert forall|b: BaseFile| #[trigger] b_file(names, n, ext, b) implies base_served(gs, b) by {
        reveal(has_base);
        assert(bm.dom().contains(b.file_id@)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0@ == b.file_id@;
        let bs = e[i].1@; assert(has_base(bs, b)); let j = choose|j: int| 0 <= j < bs.len() && bk(#[trigger] bs[j]) == bk(b);
        assert(group_of(p, e[i].0@, bs, logs_under(lm, e[i].0@), gs[i]));
        let (g0, g1) = choose|g0: FileGroup, g1: FileGroup| g0.partition_path@ == p && g0.file_slices@ == Map::<Seq<char>, FileSlice>::empty() && #[trigger] bases_added(g0, bs, bs.len() as int, g1) && #[trigger] logs_added(g1, logs_under(lm, e[i].0@), logs_under(lm, e[i].0@).len() as int, gs[i]);
        assert(g1.file_slices@.dom().contains(bs[j].commit_timestamp@));
    }
    assert forall|i: int, k: Seq<char>| 0 <= i < gs.len() && #[trigger] gs[i].file_slices@.dom().contains(k) implies slice_listed(names, ext, p, gs[i].file_id@, k, gs[i].file_slices@[k]) by {
        let bs = e[i].1@; let ls = logs_under(lm, e[i].0@);
        assert(group_of(p, e[i].0@, bs, ls, gs[i]));
        let (g0, g1) = choose|g0: FileGroup, g1: FileGroup| g0.partition_path@ == p && g0.file_slices@ == Map::<Seq<char>, FileSlice>::empty() && #[trigger] bases_added(g0, bs, bs.len() as int, g1) && #[trigger] logs_added(g1, ls, ls.len() as int, gs[i]);
        assert(g1.file_slices@.dom().contains(k));
        let j = choose|j: int| 0 <= j < bs.len() && (#[trigger] bs[j]).commit_timestamp@ == k;
        assert(bm[e[i].0@]@[j] == bs[j]); assert(b_file(names, n, ext, bs[j]));
        assert(fresh_slice(g0, bs[j], g1.file_slices@[k]));
        assert forall|l: LogFile| #[trigger] gs[i].file_slices@[k].log_files@.contains(l) implies l_file(names, n, ext, l) && l.file_id@ == gs[i].file_id@ && l.base_commit_timestamp@ == k by {
            assert(!g1.file_slices@[k].log_files@.contains(l)); let x = choose|x: int| 0 <= x < ls.len() && #[trigger] ls[x] == l; assert(lm[e[i].0@]@[x] == l);
        }
    }
    assert forall|l: LogFile, i: int| #![trigger l_file(names, n, ext, l), gs[i]] l_file(names, n, ext, l) && 0 <= i < gs.len() && gs[i].file_id@ == l.file_id@ implies gs[i].file_slices@.dom().contains(l.base_commit_timestamp@) && has_log(gs[i].file_slices@[l.base_commit_timestamp@].log_files@, l) by {
        reveal(has_logk);
        let bs = e[i].1@; let ls = logs_under(lm, e[i].0@);
        assert(group_of(p, e[i].0@, bs, ls, gs[i])); assert(e[i].0@ == l.file_id@);
        let (g0, g1) = choose|g0: FileGroup, g1: FileGroup| g0.partition_path@ == p && g0.file_slices@ == Map::<Seq<char>, FileSlice>::empty() && #[trigger] bases_added(g0, bs, bs.len() as int, g1) && #[trigger] logs_added(g1, ls, ls.len() as int, gs[i]);
        assert(has_logk(ls, l)); let x = choose|x: int| 0 <= x < ls.len() && lk(#[trigger] ls[x]) == lk(l);
        assert(has_name(gs[i].file_slices@[ls[x].base_commit_timestamp@].log_files@, ls[x]));
        has_name_log(gs[i].file_slices@[ls[x].base_commit_timestamp@].log_files@, ls[x]);
    }
}
/// two of the first n names denote these base files
#[verifier::opaque]
pub open spec fn b_two(names: Seq<Seq<char>>, n: int, ext: Seq<char>, b: BaseFile, c: BaseFile) -> bool { exists|k: int, l: int| 0 <= k < l < n && base_like(names[k], ext) && base_like(names[l], ext) && #[trigger] base_of(names[k], b) && #[trigger] base_of(names[l], c) }
pub open spec fn bdist(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<BaseFile>>) -> bool {
    &&& forall|id: Seq<char>| #[trigger] m.dom().contains(id) ==> m[id]@.len() > 0
    &&& forall|id: Seq<char>, i: int, j: int| #![trigger m[id]@[i], m[id]@[j]] m.dom().contains(id) && 0 <= i < j < m[id]@.len() ==> b_two(names, n, ext, m[id]@[i], m[id]@[j])
}
pub proof fn lemma_bdist_skip(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<BaseFile>>) requires 0 <= n < names.len(), bdist(names, n, ext, m) ensures bdist(names, n + 1, ext, m)
{ reveal(b_two); assert forall|b: BaseFile, c: BaseFile| #[trigger] b_two(names, n, ext, b, c) implies b_two(names, n + 1, ext, b, c) by { let (k, l) = choose|k: int, l: int| 0 <= k < l < n && base_like(names[k], ext) && base_like(names[l], ext) && #[trigger] base_of(names[k], b) && #[trigger] base_of(names[l], c); assert(base_of(names[k], b) && base_of(names[l], c)); } }
pub proof fn lemma_bdist_push(names: Seq<Seq<char>>, n: int, ext: Seq<char>, m: Map<Seq<char>, Vec<BaseFile>>, b: BaseFile, v: Vec<BaseFile>)
    requires 0 <= n < names.len(), bmap(names, n, ext, m), bdist(names, n, ext, m), base_like(names[n], ext), base_of(names[n], b), v@ == (if m.dom().contains(b.file_id@) { m[b.file_id@]@ } else { Seq::empty() }).push(b)
    ensures bdist(names, n + 1, ext, m.insert(b.file_id@, v))
{
    lemma_bdist_skip(names, n, ext, m);
    let id = b.file_id@; let m2 = m.insert(id, v);
    let o = if m.dom().contains(id) { m[id]@ } else { Seq::empty() };
    assert forall|d: Seq<char>, i: int, j: int| #![trigger m2[d]@[i], m2[d]@[j]] m2.dom().contains(d) && 0 <= i < j < m2[d]@.len() implies b_two(names, n + 1, ext, m2[d]@[i], m2[d]@[j]) by {
        if d != id { assert(b_two(names, n + 1, ext, m[d]@[i], m[d]@[j])); }
        else if j < o.len() { assert(v@[i] == m[id]@[i] && v@[j] == m[id]@[j]); assert(b_two(names, n + 1, ext, m[id]@[i], m[id]@[j])); }
        else { reveal(b_two); reveal(b_file); assert(v@[i] == m[id]@[i] && v@[j] == b); let x = m[id]@[i]; assert(b_file(names, n, ext, x)); let k = choose|k: int| 0 <= k < n && base_like(names[k], ext) && base_of(#[trigger] names[k], x); assert(base_of(names[k], x) && base_of(names[n], b)); }
    }
}
/// why a directory cannot be read as file groups: a data file that is no base file, two base files for one commit of a group,
/// a log file of a group without the base file it belongs to
pub open spec fn odd_listing(names: Seq<Seq<char>>, ext: Seq<char>) -> bool {
    let n = names.len() as int;
    ||| exists|k: int| 0 <= k < n && base_like(#[trigger] names[k], ext) && no_base(names[k])
    ||| exists|b: BaseFile, c: BaseFile| #[trigger] b_two(names, n, ext, b, c) && b.file_id@ == c.file_id@ && b.commit_timestamp@ == c.commit_timestamp@
    ||| exists|l: LogFile| #[trigger] l_file(names, n, ext, l) && (exists|b: BaseFile| #[trigger] b_file(names, n, ext, b) && b.file_id@ == l.file_id@) && forall|b: BaseFile| #[trigger] b_file(names, n, ext, b) && b.file_id@ == l.file_id@ ==> b.commit_timestamp@ != l.base_commit_timestamp@
}
pub open spec fn unlistable(st: Storage, h: HudiConfigs, p: Seq<char>) -> bool { match listing(st, Some(p)) { Some(names) => odd_listing(names, base_ext(h)), None => true } }
//@fn crates/core/src/table/listing.rs FileLister::list_file_groups_for_partition
@rule method into_iter vx_into_iter
@rule method ends_with vx_ends_with
@rule transparent_fmt
@rule range_index
@rule method to_owned vx_to_string
@loops 2
@spec
    ensures match ret { Ok(gs) => (listing(*self.storage, Some(partition_path@)) matches Some(names) && listed_groups(names, base_ext(*self.hudi_configs), partition_path@, gs@)), Err(_) => unlistable(*self.storage, *self.hudi_configs, partition_path@) }
@before for file_metadata in listed_file_metadata
    let ghost names = listed_file_metadata@.map_values(|f: FileMetadata| f.name@); let ghost ext = base_file_format@; let ghost mut n: int = 0;
@loop 0 pre
    proof { reveal(b_file); reveal(l_file); }
@loop 0
    invariant 0 <= n <= names.len(), listing(*self.storage, Some(partition_path@)) == Some(names), ext == base_ext(*self.hudi_configs), vx_it0@.len() == names.len() - n, forall|k: int| 0 <= k < vx_it0@.len() ==> (#[trigger] vx_it0@[k]).name@ == names[n + k], ext == base_file_format@,
        bmap(names, n, ext, file_id_to_base_files@), bdist(names, n, ext, file_id_to_base_files@), lmap(names, n, ext, file_id_to_log_files@),
    ensures n == names.len()
    decreases vx_it0@.len()
@loop 0 start
    let ghost pb = file_id_to_base_files@; let ghost pl = file_id_to_log_files@; let ghost nm = names[n];
    proof {
        assert(file_metadata.name@ == nm);
        if !base_like(nm, ext) { lemma_bmap_skip(names, n, ext, pb); lemma_bdist_skip(names, n, ext, pb); }
        if hidden(nm) || base_like(nm, ext) || no_log(nm) { lemma_lmap_skip(names, n, ext, pl); }
        n = n + 1;
        assert(seq!['.'] =~= "."@) by { reveal_strlit("."); }
        assert forall|b: BaseFile, v: Vec<BaseFile>| #[trigger] base_of(nm, b) && base_like(nm, ext) && #[trigger] v@ == (if pb.dom().contains(b.file_id@) { pb[b.file_id@]@ } else { Seq::empty() }).push(b) implies bmap(names, n, ext, pb.insert(b.file_id@, v)) && bdist(names, n, ext, pb.insert(b.file_id@, v)) by { lemma_bmap_push(names, n - 1, ext, pb, b, v); lemma_bdist_push(names, n - 1, ext, pb, b, v); }
        assert forall|b: LogFile, v: Vec<LogFile>| #[trigger] log_of(nm, b) && !hidden(nm) && !base_like(nm, ext) && #[trigger] v@ == (if pl.dom().contains(b.file_id@) { pl[b.file_id@]@ } else { Seq::empty() }).push(b) implies lmap(names, n, ext, pl.insert(b.file_id@, v)) by { lemma_lmap_push(names, n - 1, ext, pl, b, v); }
    }
@before let base_file = BaseFile::try_from(file_metadata)?;
    proof { assert(base_file_extension@ =~= seq!['.'] + ext); assert(base_like(nm, ext)); assert(nm == names[n - 1]); if no_base(nm) { assert(odd_listing(names, ext)); } }
@before match LogFile::try_from(file_metadata)
    proof { assert(base_file_extension@ =~= seq!['.'] + ext); assert(!base_like(nm, ext)); assert(bmap(names, n, ext, pb)); assert(bdist(names, n, ext, pb)); }
@loop 1 pre
    let ghost e = vx_it1@; let ghost mut k: int = 0; let ghost bm = file_id_to_base_files@; let ghost lm = file_id_to_log_files@;
@loop 1
    invariant listing(*self.storage, Some(partition_path@)) == Some(names), ext == base_ext(*self.hudi_configs), bmap(names, names.len() as int, ext, bm), bdist(names, names.len() as int, ext, bm), lmap(names, names.len() as int, ext, lm),
        forall|i: int| 0 <= i < e.len() ==> bm.dom().contains((#[trigger] e[i]).0@) && e[i].1 == bm[e[i].0@],
        0 <= k <= e.len(), vx_it1@ == e.subrange(k, e.len() as int), groups_built(partition_path@, e, lm, k, file_groups@),
        forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@,
        forall|i: int| k <= i < e.len() ==> logs_under(file_id_to_log_files@, (#[trigger] e[i]).0@) == logs_under(lm, e[i].0@),
    ensures k == e.len()
    decreases vx_it1@.len()
@loop 1 start
    let ghost pre = file_groups@; let ghost pl = file_id_to_log_files@;
    proof { assert(file_id == e[k].0 && base_files == e[k].1); assert(e.subrange(k, e.len() as int).drop_first() =~= e.subrange(k + 1, e.len() as int)); }
@before file_group.add_base_files(base_files)?;
    let ghost bs = base_files@; let ghost all = names.len() as int; let ghost id = e[k].0@;
    proof {
        assert(bs == bm[id]@);
        assert forall|i: int, j: int| 0 <= j < i < bs.len() && (#[trigger] bs[j]).commit_timestamp@ == (#[trigger] bs[i]).commit_timestamp@ implies odd_listing(names, ext) by { assert(bm[id]@[j] == bs[j] && bm[id]@[i] == bs[i]); assert(b_two(names, all, ext, bm[id]@[j], bm[id]@[i])); assert(bm[id]@[j].file_id@ == id && bm[id]@[i].file_id@ == id); }
    }
@before file_group.add_log_files(log_files)?;
    let ghost ls = log_files@; let ghost dom = file_group.file_slices@.dom();
    proof {
        assert(ls == logs_under(lm, id));
        assert forall|i: int| 0 <= i < ls.len() && !dom.contains((#[trigger] ls[i]).base_commit_timestamp@) implies odd_listing(names, ext) by {
            let l = ls[i]; assert(lm[id]@[i] == l); assert(l_file(names, all, ext, l) && l.file_id@ == id);
            let b0 = bm[id]@[0]; assert(b_file(names, all, ext, b0) && b0.file_id@ == id);
            assert forall|b: BaseFile| #[trigger] b_file(names, all, ext, b) && b.file_id@ == l.file_id@ implies b.commit_timestamp@ != l.base_commit_timestamp@ by {
                reveal(has_base); assert(has_base(bm[id]@, b)); let j = choose|j: int| 0 <= j < bm[id]@.len() && bk(#[trigger] bm[id]@[j]) == bk(b); assert(bs[j] == bm[id]@[j]); assert(dom.contains(bs[j].commit_timestamp@));
            }
        }
    }
@loop 1 end
    proof {
        assert(group_of(partition_path@, e[k].0@, e[k].1@, logs_under(lm, e[k].0@), file_groups@.last()));
        assert(file_groups@ =~= pre.push(file_groups@.last()));
        k = k + 1;
    }
@loop 1 post
    proof { lemma_listed(names, ext, partition_path@, bm, lm, e, file_groups@); }
//@end
//@prop C05 C21
// ---- the partitions of a table ----------------------------------------------------------------------
/// names of the directories directly below a path; the deepest directories below one (C18)
pub uninterp spec fn dirs(st: Storage, sub: Option<Seq<char>>) -> Option<Seq<Seq<char>>>;
pub uninterp spec fn leaves(st: Storage, sub: Option<Seq<char>>) -> Option<Seq<Seq<char>>>;
pub uninterp spec fn partitioned(h: HudiConfigs) -> bool;
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
impl Storage { #[verifier::external_body] pub fn list_dirs(&self, sub: Option<&str>) -> (r: core::result::Result<Vec<String>, StorageError>) ensures match r { Ok(v) => dirs(*self, opt_str(sub)) == Some(views(v@)), Err(_) => dirs(*self, opt_str(sub)) is None } { unimplemented!() } }
#[verifier::external_body] pub fn get_leaf_dirs(st: &Storage, sub: Option<&str>) -> (r: core::result::Result<Vec<String>, StorageError>) ensures match r { Ok(v) => leaves(*st, opt_str(sub)) == Some(views(v@)), Err(_) => leaves(*st, opt_str(sub)) is None } { unimplemented!() }
#[verifier::external_body] pub fn is_table_partitioned(h: &HudiConfigs) -> (r: bool) ensures r == partitioned(*h) { unimplemented!() }
//@type crates/core/src/metadata/mod.rs HUDI_METADATA_DIR ensures HUDI_METADATA_DIR@ == ".hoodie"@
//@type crates/core/src/metadata/mod.rs DELTALAKE_METADATA_DIR ensures DELTALAKE_METADATA_DIR@ == "_delta_log"@
//@type crates/core/src/metadata/mod.rs ICEBERG_METADATA_DIR ensures ICEBERG_METADATA_DIR@ == "metadata"@
pub open spec fn reserved(d: Seq<char>) -> bool { d == ".hoodie"@ || d == "_delta_log"@ || d == "metadata"@ }
//@type crates/core/src/metadata/mod.rs LAKE_FORMAT_METADATA_DIRS ensures forall|d: Seq<char>| #![trigger reserved(d)] (LAKE_FORMAT_METADATA_DIRS@[0]@ == d || LAKE_FORMAT_METADATA_DIRS@[1]@ == d || LAKE_FORMAT_METADATA_DIRS@[2]@ == d) <==> reserved(d)
pub trait VxContains<T> { fn vx_contains(&self, x: T) -> bool; }
impl<'a> VxContains<&&'a str> for [&'a str; 3] { #[verifier::external_body] fn vx_contains(&self, x: &&'a str) -> (r: bool) ensures r == (self@[0]@ == x@ || self@[1]@ == x@ || self@[2]@ == x@) { unimplemented!() /* self.contains(x) */ } }
pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() /* self.extend(v) */ } }
/// the partition paths of a table: the deepest directories below the directories of its root that are not a format's own
pub open spec fn below(st: Storage, d: Seq<char>) -> Seq<Seq<char>> { match leaves(st, Some(d)) { Some(l) => l, None => Seq::empty() } }
pub open spec fn all_below(st: Storage, ds: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else { all_below(st, ds, n - 1) + below(st, ds[n - 1]) } }
pub open spec fn own(d: Seq<char>) -> bool { !reserved(d) }
pub open spec fn partition_paths_of(st: Storage, h: HudiConfigs, ps: Seq<Seq<char>>) -> bool {
    if !partitioned(h) { ps == seq![""@] } else { match dirs(st, None) { Some(ds) => ps == all_below(st, ds.filter(|d: Seq<char>| own(d)), ds.filter(|d: Seq<char>| own(d)).len() as int), None => false } }
}
pub open spec fn relevant_paths(st: Storage, h: HudiConfigs, pr: PartitionPruner, v: Seq<Seq<char>>) -> bool {
    exists|ps: Seq<Seq<char>>| #[trigger] partition_paths_of(st, h, ps) && v == (if !partitioned(h) { ps } else { ps.filter(|p: Seq<char>| pr.lets(p)) })
}
/// the directories of the table cannot be listed
pub open spec fn paths_lost(st: Storage, h: HudiConfigs) -> bool { partitioned(h) && match dirs(st, None) { Some(ds) => leaf_lost(st, ds), None => true } }
pub open spec fn leaf_lost(st: Storage, ds: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < ds.len() && own(#[trigger] ds[i]) && leaves(st, Some(ds[i])) is None }
pub proof fn lemma_views_filter(v: Seq<String>, q: spec_fn(String) -> bool, p: spec_fn(Seq<char>) -> bool)
    requires forall|i: int| 0 <= i < v.len() ==> q(#[trigger] v[i]) == p(v[i]@)
    ensures views(v.filter(q)) == views(v).filter(p)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let w = v.drop_last();
        lemma_views_filter(w, q, p);
        assert(views(v).drop_last() =~= views(w)); assert(views(v).last() == v.last()@); assert(q(v[v.len() - 1]) == p(v[v.len() - 1]@));
        if q(v.last()) { assert(views(w.filter(q).push(v.last())) =~= views(w.filter(q)).push(v.last()@)); }
    } else { assert(views(v.filter(q)) =~= views(v).filter(p)); }
}
pub proof fn lemma_filter_all(v: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool) requires forall|x: Seq<char>| #[trigger] p(x) ensures v.filter(p) == v decreases v.len()
{ reveal(Seq::filter); if v.len() > 0 { lemma_filter_all(v.drop_last(), p); assert(v.drop_last().push(v.last()) =~= v); } else { assert(v.filter(p) =~= v); } }
pub proof fn lemma_from(v: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool, i: int) requires 0 <= i < v.filter(p).len() ensures exists|j: int| 0 <= j < v.len() && #[trigger] v[j] == v.filter(p)[i] && p(v[j]) decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 { let w = v.drop_last(); if i < w.filter(p).len() { lemma_from(w, p, i); let j = choose|j: int| 0 <= j < w.len() && #[trigger] w[j] == w.filter(p)[i] && p(w[j]); assert(v[j] == w[j]); } else { assert(v[v.len() - 1] == v.last()); } }
}
pub proof fn lemma_lost(st: &Storage, ds: Seq<Seq<char>>, n: int)
    requires dirs(*st, None) matches Some(all) && ds == all.filter(|d: Seq<char>| own(d)), 0 <= n < ds.len()
    ensures leaves(*st, Some(ds[n])) is None ==> leaf_lost(*st, dirs(*st, None)->Some_0)
{ lemma_from(dirs(*st, None)->Some_0, |d: Seq<char>| own(d), n); }
//@fn crates/core/src/table/listing.rs FileLister::list_relevant_partition_paths
@rule method into_iter vx_into_iter
@rule method contains vx_contains
@rule method extend vx_extend
@loops 1
@spec
    ensures match ret { Ok(v) => relevant_paths(*self.storage, *self.hudi_configs, self.partition_pruner, views(v@)), Err(_) => paths_lost(*self.storage, *self.hudi_configs) }
@start
    let ghost q = |d: String| own(d@); let ghost q2 = |d: String| self.partition_pruner.lets(d@);
    proof {
        assert(!partitioned(*self.hudi_configs) ==> partition_paths_of(*self.storage, *self.hudi_configs, seq![""@])); assert forall|v: Seq<String>| v.len() == 1 && v[0]@ == ""@ implies #[trigger] views(v) == seq![""@] by { assert(views(v) =~= seq![""@]); }
        assert forall|w: Vec<String>| #![trigger views(w@)] views(w@.filter(q)) == views(w@).filter(|d: Seq<char>| own(d)) by { lemma_views_filter(w@, q, |d: Seq<char>| own(d)); }
        assert forall|w: Vec<String>| #![trigger views(w@)] views(w@.filter(q2)) == views(w@).filter(|p: Seq<char>| self.partition_pruner.lets(p)) by { lemma_views_filter(w@, q2, |p: Seq<char>| self.partition_pruner.lets(p)); }
    }
@before if partition_paths.is_empty()
    proof {
        let ps = views(partition_paths@); assert(partition_paths_of(*self.storage, *self.hudi_configs, ps));
        if self.partition_pruner.no_filters() { lemma_filter_all(ps, |p: Seq<char>| self.partition_pruner.lets(p)); }
        if ps.len() == 0 { reveal(Seq::filter); assert(ps.filter(|p: Seq<char>| self.partition_pruner.lets(p)) =~= ps); }
    }
@closure 0
    |$1: &String| -> (b: bool) ensures b == own($1@)
@closure 1
    |$1: &String| -> (b: bool) ensures b == self.partition_pruner.lets($1@)
@loop 0 pre
    let ghost ds = views(top_level_dirs@); let ghost mut n: int = 0;
@loop 0
    invariant partitioned(*self.hudi_configs), dirs(*self.storage, None) matches Some(all) && ds == all.filter(|d: Seq<char>| own(d)), 0 <= n <= ds.len(), vx_it0@.len() == ds.len() - n, forall|k: int| 0 <= k < vx_it0@.len() ==> (#[trigger] vx_it0@[k])@ == ds[n + k],
        views(partition_paths@) =~= all_below(*self.storage, ds, n),
    ensures n == ds.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(dir@ == ds[n]); lemma_lost(&*self.storage, ds, n); n = n + 1; }
//@end
//@fn crates/core/src/table/listing.rs FileLister::new
@spec
    ensures ret.hudi_configs == hudi_configs, ret.storage == storage, ret.partition_pruner == partition_pruner
//@end
/// an entry of the view: the groups listed in the directory of a partition
pub open spec fn view_entry(st: Storage, h: HudiConfigs, k: Seq<char>, v: Seq<FileGroup>) -> bool { listing(st, Some(k)) matches Some(names) && listed_groups(names, base_ext(h), k, v) }
pub open spec fn has_relevant(m: VDash<String, Groups>, st: Storage, h: HudiConfigs, pr: PartitionPruner) -> bool {
    exists|ps: Seq<Seq<char>>| #[trigger] relevant_paths(st, h, pr, ps) && forall|i: int| 0 <= i < ps.len() ==> m.has_key(#[trigger] ps[i])
}
/// why the partitions selected cannot be listed
pub open spec fn hindered(st: Storage, h: HudiConfigs, pr: PartitionPruner) -> bool { paths_lost(st, h) || exists|ps: Seq<Seq<char>>, i: int| #[trigger] relevant_paths(st, h, pr, ps) && 0 <= i < ps.len() && unlistable(st, h, #[trigger] ps[i]) }
/// the concurrent stream: every item is handled, in some order, until one answers an error
pub open spec fn same_items<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> exists|j: int| 0 <= j < b.len() && b[j] == #[trigger] a[i]) && (forall|j: int| 0 <= j < b.len() ==> exists|i: int| 0 <= i < a.len() && a[i] == #[trigger] b[j]) }
#[verifier::external_body] pub fn vx_stream<T>(v: Vec<T>) -> (r: VIter<T>) ensures r@ == v@ { unimplemented!() /* stream::iter(v) */ }
impl<T> VIter<T> { #[verifier::external_body] pub fn buffer_unordered(self, n: usize) -> (r: VIter<T>) requires n > 0 ensures same_items(self@, r@) { unimplemented!() } }
impl<T, E> VIter<core::result::Result<T, E>> {
    #[verifier::external_body] pub fn try_for_each<F: Fn(T) -> core::result::Result<(), E>>(self, f: F) -> (r: core::result::Result<(), E>)
        requires forall|i: int, x: T| 0 <= i < self@.len() && #[trigger] self@[i] == core::result::Result::<T, E>::Ok(x) ==> #[trigger] f.requires((x,))
        ensures match r { Ok(_) => forall|i: int| 0 <= i < self@.len() ==> ((#[trigger] self@[i]) matches Ok(x) && f.ensures((x,), Ok(()))),
            Err(e) => exists|i: int| 0 <= i < self@.len() && (match #[trigger] self@[i] { Ok(x) => f.ensures((x,), Err(e)), Err(e2) => e2 == e }) } { unimplemented!() }
}
/// the option's values are the positive ones (C17)
pub struct ListingParallelism;
pub axiom fn ax_parallelism() ensures forall|h: HudiConfigs| #[trigger] cfg_to::<usize>(cfg_val(h, ListingParallelism)) > 0;
impl VDash<String, Groups> {
    /// an empty map, whose values will be those that g lets through
    /// an empty map that may hold the entries of g (every insert is checked against it)
    #[verifier::external_body] pub fn new(g: Ghost<spec_fn(Seq<char>, Seq<FileGroup>) -> bool>) -> (r: VDash<String, Groups>) ensures forall|k: Seq<char>, v: Seq<FileGroup>| #[trigger] r.inv(k, v) == (g@)(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize, g: Ghost<spec_fn(Seq<char>, Seq<FileGroup>) -> bool>) -> (r: VDash<String, Groups>) ensures forall|k: Seq<char>, v: Seq<FileGroup>| #[trigger] r.inv(k, v) == (g@)(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_owned(&self) -> (r: VDash<String, Groups>)
        ensures forall|k: Seq<char>, v: Seq<FileGroup>| #[trigger] r.inv(k, v) == self.inv(k, v), forall|k: Seq<char>| self.has_key(k) ==> #[trigger] r.has_key(k) { unimplemented!() /* self.to_owned() */ }
}
pub trait VxArcRef<T> { fn vx_arc_ref(&self) -> &T; }
impl<T> VxArcRef<T> for Arc<T> { fn vx_arc_ref(&self) -> (r: &T) ensures *r == **self { &**self } }
//@fn crates/core/src/table/listing.rs FileLister::list_file_groups_for_relevant_partitions
@rule path stream::iter vx_stream
@rule method as_ref vx_arc_ref
@rule method to_owned vx_to_owned
@rule ghostarg DashMap::with_capacity |k: Seq<char>, v: Seq<FileGroup>| view_entry(*self.storage, *self.hudi_configs, k, v)
@closures 2
@spec
    ensures match ret { Ok(m) => has_relevant(m, *self.storage, *self.hudi_configs, self.partition_pruner) && forall|k: Seq<char>, v: Seq<FileGroup>| #[trigger] m.inv(k, v) ==> view_entry(*self.storage, *self.hudi_configs, k, v), Err(_) => hindered(*self.storage, *self.hudi_configs, self.partition_pruner) }
@start
    proof {
        ax_parallelism();
        let one = seq![""@]; assert(!partitioned(*self.hudi_configs) ==> partition_paths_of(*self.storage, *self.hudi_configs, one)); assert(!partitioned(*self.hudi_configs) ==> relevant_paths(*self.storage, *self.hudi_configs, self.partition_pruner, one));
        assert forall|m: VDash<String, Groups>| !partitioned(*self.hudi_configs) && #[trigger] m.has_key(""@) implies has_relevant(m, *self.storage, *self.hudi_configs, self.partition_pruner) by { assert(forall|i: int| 0 <= i < one.len() ==> m.has_key(#[trigger] one[i])); }
        assert(one[0] == ""@); assert(!partitioned(*self.hudi_configs) && unlistable(*self.storage, *self.hudi_configs, ""@) ==> hindered(*self.storage, *self.hudi_configs, self.partition_pruner));
        assert forall|v: Seq<String>, i: int| 0 <= i < v.len() && relevant_paths(*self.storage, *self.hudi_configs, self.partition_pruner, #[trigger] views(v)) && unlistable(*self.storage, *self.hudi_configs, (#[trigger] v[i])@) implies hindered(*self.storage, *self.hudi_configs, self.partition_pruner) by { assert(views(v)[i] == v[i]@); }
    }
@closure 0
    |$1: String| -> (r: Result<(String, Vec<FileGroup>)>) ensures match r { Ok(x) => x.0@ == p@ && view_entry(*self.storage, *self.hudi_configs, x.0@, x.1@), Err(_) => unlistable(*self.storage, *self.hudi_configs, p@) }
@closure 1
    |$1: (String, Vec<FileGroup>)| -> (r: Result<()>) requires file_groups_map.inv($1.0@, $1.1@) ensures r is Ok, file_groups_map.has_key($1.0@)
//@end
impl VxIntoIterator for VDash<String, Groups> {
    type Item = (String, Groups);
    uninterp spec fn items(self) -> Seq<(String, Groups)>;
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(String, Groups)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.inv((#[trigger] r@[i]).0@, r@[i].1@),
            forall|k: Seq<char>| #[trigger] self.has_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k { unimplemented!() /* self.into_iter() */ }
}
impl PartitionPruner { #[verifier::external_body] pub fn vx_to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() /* self.to_owned() */ } }
/// the storage opened with those options (storage unit, C15)
pub uninterp spec fn opened_storage(options: Map<Seq<char>, String>, c: HudiConfigs) -> Option<Storage>;
#[verifier::external_body] pub fn vx_open_storage(options: Arc<VMap<String, String>>, c: Arc<HudiConfigs>) -> (r: Result<Arc<Storage>>)
    ensures match r { Ok(s) => opened_storage(options@, *c) == Some(*s), Err(_) => opened_storage(options@, *c) is None } { unimplemented!() /* Storage::new */ }
//@fn crates/core/src/table/fs_view.rs FileSystemView::new
@rule path Storage::new vx_open_storage
@rule ghostarg DashMap::new |k: Seq<char>, v: Seq<FileGroup>| view_entry(*storage, *hudi_configs, k, v)
@spec
    ensures match ret { Ok(v) => v.wf() && v.hudi_configs == hudi_configs && opened_storage(storage_options@, *hudi_configs) == Some(*v.storage), Err(_) => opened_storage(storage_options@, *hudi_configs) is None }
//@end
//@fn crates/core/src/table/fs_view.rs FileSystemView::load_file_groups
@rule method to_owned vx_to_owned
@loops 1
@spec
    requires self.wf()
    ensures match ret { Ok(_) => has_relevant(*self.partition_to_file_groups, *self.storage, *self.hudi_configs, *partition_pruner), Err(_) => hindered(*self.storage, *self.hudi_configs, *partition_pruner) }
@loop 0 pre
    let ghost m = file_groups_map; let ghost e = vx_it0@; let ghost mut n: int = 0;
@loop 0
    invariant self.wf(), 0 <= n <= e.len(), vx_it0@ == e.subrange(n, e.len() as int),
        forall|k: Seq<char>, v: Seq<FileGroup>| #[trigger] m.inv(k, v) ==> view_entry(*self.storage, *self.hudi_configs, k, v),
        forall|i: int| 0 <= i < e.len() ==> m.inv((#[trigger] e[i]).0@, e[i].1@),
        forall|i: int| 0 <= i < n ==> self.partition_to_file_groups.has_key((#[trigger] e[i]).0@),
    ensures n == e.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(partition_path == e[n].0 && file_groups == e[n].1); assert(e.subrange(n, e.len() as int).drop_first() =~= e.subrange(n + 1, e.len() as int)); n = n + 1; }
//@end
//@fn crates/core/src/table/fs_view.rs FileSystemView::get_file_slices_as_of
@spec
    requires self.wf()
    ensures match ret { Ok(v) => view_slices(*self, timestamp@, *partition_pruner, excluding_file_groups@, v@) && has_relevant(*self.partition_to_file_groups, *self.storage, *self.hudi_configs, *partition_pruner),
        Err(_) => hindered(*self.storage, *self.hudi_configs, *partition_pruner) || view_lost(*self, timestamp@, *partition_pruner, excluding_file_groups@) }
//@end
//@prop C22
// ---- the table's schema --------------------------------------------------------------------------------
#[verifier::external_body] pub struct Field { }
impl Field { pub uninterp spec fn label(self) -> Seq<char>; }
pub struct Fields { pub v: Vec<Arc<Field>> }
impl View for Fields { type V = Seq<Arc<Field>>; open spec fn view(&self) -> Seq<Arc<Field>> { self.v@ } }
impl Fields {
    /// the first field of that name, and its place
    #[verifier::external_body] pub fn find<'a>(&'a self, name: &str) -> (r: Option<(usize, &'a Arc<Field>)>)
        ensures match r { Some((i, f)) => i < self@.len() && *f == self@[i as int] && f.label() == name@ && forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).label() != name@, None => forall|j: int| 0 <= j < self@.len() ==> (#[trigger] self@[j]).label() != name@ } { unimplemented!() }
}
pub struct Schema { pub fields: Fields, pub rest: VMap<String, String> }
impl Schema {
    #[verifier::external_body] pub fn new(fs: Vec<Arc<Field>>) -> (r: Schema) ensures r.fields@ == fs@, r.rest@ == Map::<Seq<char>, String>::empty() { unimplemented!() }
    pub fn fields(&self) -> (r: &Fields) ensures *r == self.fields { &self.fields }
}
/// the Arrow schema a base file's footer holds
pub uninterp spec fn footer_schema(st: Storage, path: Seq<char>) -> Option<Schema>;
impl Storage {
    #[verifier::external_body] pub fn get_parquet_file_schema(&self, path: &str) -> (r: core::result::Result<Schema, StorageError>)
        ensures match r { Ok(s) => footer_schema(*self, path@) == Some(s), Err(_) => footer_schema(*self, path@) is None } { unimplemented!() }
}
impl VPathBuf {
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: core::result::Result<VPathBuf, VInfallible>) ensures r matches Ok(p) && p.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, s: &str) -> (r: VPathBuf) ensures r.text() == path_push(self.text(), s@) { unimplemented!() }
}
pub struct VInfallible { }
pub trait VxIsSomeAnd<T> { spec fn osa(self) -> Option<T>; fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> bool requires self.osa() matches Some(x) ==> f.requires((x,)); }
impl<T> VxIsSomeAnd<T> for Option<T> {
    open spec fn osa(self) -> Option<T> { self }
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) ensures match self { None => !r, Some(x) => f.ensures((x,), r) } { match self { None => false, Some(x) => f(x) } }
}
impl<T> VIter<T> {
    /// each item's answer is one the closure gives; the results are the answers that are there, in order
    #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|a: Seq<Option<U>>| a.len() == self@.len() && (forall|i: int| 0 <= i < a.len() ==> f.ensures((self@[i],), #[trigger] a[i])) && r@ == #[trigger] somes(a) { unimplemented!() }
}
pub open spec fn somes<U>(a: Seq<Option<U>>) -> Seq<U> decreases a.len() { if a.len() == 0 { Seq::empty() } else { match a.last() { Some(x) => somes(a.drop_last()).push(x), None => somes(a.drop_last()) } } }
pub trait VxFirst { fn vx_first<'a>(&'a self) -> Option<&'a VValue>; }
impl VxFirst for Vec<VValue> { #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a VValue>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() } }
impl VBytes { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_bytes_text(b: Vec<u8>) -> (r: core::result::Result<String, SerdeErr>) ensures match r { Ok(s) => utf8_text(b@) == Some(s@), Err(_) => utf8_text(b@) is None } { unimplemented!() }
/// the text that bytes encode in UTF-8
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;

/// the write statistics of a partition name a file
pub open spec fn has_stats(v: VValue) -> bool { v.v_arr() matches Some(a) && a.len() > 0 }
pub open spec fn writes_in(o: Map<Seq<char>, VValue>, p: Seq<char>) -> bool { o.dom().contains(p) && has_stats(o[p]) }
/// a commit wrote a file
pub open spec fn wrote(m: Map<Seq<char>, VValue>) -> bool { stats_of(m) matches Some(o) && some_writes(o) }
pub open spec fn some_writes(o: Map<Seq<char>, VValue>) -> bool { exists|p: Seq<char>| #[trigger] o.dom().contains(p) && has_stats(o[p]) }
pub open spec fn idle(t: Timeline, i: Instant) -> bool { meta_of(t, i) matches Some(m) && !wrote(m) }
/// the k-th completed commit is the latest that wrote a file
pub open spec fn last_writer(t: Timeline, k: int) -> bool {
    let is = t.completed_commits@;
    0 <= k < is.len() && (meta_of(t, is[k]) matches Some(m) && wrote(m)) && forall|j: int| k < j < is.len() ==> idle(t, #[trigger] is[j])
}
/// the base file the first write statistic of a partition names
pub open spec fn named_file(p: Seq<char>, stats: VValue) -> Option<Seq<char>> {
    match v_opt_str(obj_get(stats.v_arr()->Some_0[0], "path"@)) {
        None => None,
        Some(f) => if is_suffix(".parquet"@, f) { Some(f) } else { match v_opt_str(obj_get(stats.v_arr()->Some_0[0], "baseFile"@)) { None => None, Some(b) => Some(path_push(p, b)) } },
    }
}
pub open spec fn names_file(m: Map<Seq<char>, VValue>, f: Seq<char>) -> bool { stats_of(m) matches Some(o) && exists|p: Seq<char>| #[trigger] names_in(o, p, f) }
pub open spec fn names_in(o: Map<Seq<char>, VValue>, p: Seq<char>, f: Seq<char>) -> bool { writes_in(o, p) && named_file(p, o[p]) == Some(f) }
/// s is the schema of a base file that the latest commit that wrote any names
pub open spec fn latest_schema(t: Timeline, s: Schema) -> bool { exists|k: int, f: Seq<char>| #[trigger] last_writer(t, k) && #[trigger] names_file(meta_of(t, t.completed_commits@[k])->Some_0, f) && footer_schema(*t.storage, f) == Some(s) }
pub open spec fn unusable(t: Timeline, o: Map<Seq<char>, VValue>, p: Seq<char>) -> bool { writes_in(o, p) && (named_file(p, o[p]) matches Some(f) ==> footer_schema(*t.storage, f) is None) }
/// there is none: no commit wrote a file, metadata or the file cannot be read, or a statistic does not name a base file
pub open spec fn schema_missing(t: Timeline) -> bool {
    let is = t.completed_commits@;
    ||| forall|j: int| 0 <= j < is.len() ==> idle(t, #[trigger] is[j])
    ||| exists|j: int| 0 <= j < is.len() && meta_of(t, #[trigger] is[j]) is None
    ||| exists|k: int, p: Seq<char>| #[trigger] last_writer(t, k) && #[trigger] unusable(t, stats_of(meta_of(t, is[k])->Some_0)->Some_0, p)
}
pub open spec fn schema_text(m: Map<Seq<char>, VValue>) -> Option<Seq<char>> { match map_get(m, "extraMetadata"@) { Some(v) => v_opt_str(obj_get(v, "schema"@)), None => None } }
pub open spec fn same_kind(v: VValue, k: Seq<char>, r: VValue) -> bool { match obj_get(v, k) { Some(x) => r == x, None => r.v_str() is None && r.v_arr() is None && r.v_obj() is None } }
impl VValue { #[verifier::external_body] pub fn vx_at<'a>(&'a self, k: &str) -> (r: &'a VValue) ensures same_kind(*self, k@, *r) { unimplemented!() /* &self[k] */ } }
pub open spec fn op_of(t: Timeline, i: Instant) -> Option<Seq<char>> { match meta_of(t, i) { Some(m) => v_opt_str(map_get(m, "operationType"@)), None => None } }
/// those of the instants that clustered files
pub open spec fn clustered(t: Timeline, is: Seq<Instant>) -> Seq<Instant> decreases is.len() { if is.len() == 0 { Seq::empty() } else if op_of(t, is.last()) == Some("cluster"@) { clustered(t, is.drop_last()).push(is.last()) } else { clustered(t, is.drop_last()) } }
/// the metadata of a completed replace commit cannot be read or does not say what it did
pub open spec fn some_no_op(t: Timeline, names: Seq<Seq<char>>) -> bool { exists|i: Instant| #[trigger] completed_from(i, names, config_tz(*t.hudi_configs)) && i.action == Action::ReplaceCommit && op_of(t, i) is None }
/// the completed replace commits that clustered files, in the order asked for
pub open spec fn clustering_list(t: Timeline, v: Seq<Instant>, desc: bool) -> bool { exists|sel: TimelineSelector, all: Seq<Instant>| sel_for(Ok(sel), config_tz(*t.hudi_configs), None, None) && sel.actions@ == seq![Action::ReplaceCommit] && #[trigger] loaded(all, sel, *t.storage, desc) && v == clustered(t, all) }
//@fn crates/core/src/timeline/mod.rs Timeline::get_instant_metadata_in_json
@rule opaque_fmt
@rule path String::from_utf8 vx_bytes_text
@closure 0
    |$1: SerdeErr| -> (r: CoreError)
@spec
    ensures match ret { Ok(s) => (file_bytes(*self.storage, path_push(".hoodie"@, name_of(*instant))) matches Some(b) && utf8_text(b) == Some(s@)), Err(_) => !(file_bytes(*self.storage, path_push(".hoodie"@, name_of(*instant))) matches Some(b) && utf8_text(b) is Some) }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_latest_commit_metadata
@spec
    ensures match ret { Ok(m) => if self.completed_commits@.len() == 0 { m@ == Map::<Seq<char>, VValue>::empty() } else { meta_of(*self, self.completed_commits@.last()) == Some(m@) }, Err(_) => self.completed_commits@.len() > 0 && meta_of(*self, self.completed_commits@.last()) is None }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::has_write_stats
@rule method is_some_and vx_is_some_and
@closure 0
    |$1: &Vec<VValue>| -> (r: bool) ensures r == ($1@.len() > 0)
@spec
    ensures ret == has_stats(*write_stats)
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_latest_commit_metadata_with_writes
@rule method is_some_and vx_is_some_and
@loops 1
@spec
    ensures match ret { Ok(m) => (exists|k: int| #[trigger] last_writer(*self, k) && meta_of(*self, self.completed_commits@[k]) == Some(m@)) || (m@ == Map::<Seq<char>, VValue>::empty() && forall|j: int| 0 <= j < self.completed_commits@.len() ==> idle(*self, #[trigger] self.completed_commits@[j])),
        Err(_) => exists|j: int| 0 <= j < self.completed_commits@.len() && meta_of(*self, #[trigger] self.completed_commits@[j]) is None }
@closure 0
    |$1: &VValue| -> (r: Option<&VMap<String, VValue>>) ensures match r { None => $1.v_obj() is None, Some(s) => $1.v_obj() == Some(s@) }
@closure 1
    |$1: &VMap<String, VValue>| -> (r: bool) ensures r == some_writes($1@)
@loop 0 pre
    let ghost is = self.completed_commits@; let ghost mut n: int = is.len() as int;
@loop 0
    invariant 0 <= n <= is.len(), is == self.completed_commits@, vx_it0@ == is.subrange(0, n).map_values(|x: Instant| &x).reverse(), forall|j: int| n <= j < is.len() ==> idle(*self, #[trigger] is[j]),
    ensures n == 0
    decreases vx_it0@.len()
@loop 0 start
    proof { n = n - 1; assert(*instant == is[n]); }
@before return Ok(commit_metadata
    proof { assert(last_writer(*self, n)); }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_latest_avro_schema
@closure 0
    |$1: &VValue| -> (r: Option<&VMap<String, VValue>>) ensures match r { None => $1.v_obj() is None, Some(s) => $1.v_obj() == Some(s@) }
@closure 1
    |$1: &VMap<String, VValue>| -> (r: Option<String>) ensures match r { Some(x) => v_opt_str(map_get($1@, "schema"@)) == Some(x@), None => v_opt_str(map_get($1@, "schema"@)) is None }
@closure 2
    |$1: &VValue| -> (r: Option<&str>) ensures match r { Some(x) => $1.v_str() == Some(x@), None => $1.v_str() is None }
@closure 3
    |$1: &str| -> (r: String) ensures r@ == $1@
@closure 4
    || -> (r: CoreError)
@spec
    ensures match ret { Ok(s) => self.completed_commits@.len() > 0 && (meta_of(*self, self.completed_commits@.last()) matches Some(m) && schema_text(m) == Some(s@)), Err(_) => self.completed_commits@.len() == 0 || !(meta_of(*self, self.completed_commits@.last()) matches Some(m) && schema_text(m) is Some) }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_latest_schema
@rule str_index
@rule method first vx_first
@rule method ends_with vx_ends_with
@closure 0
    |$1: &VValue| -> (r: Option<&VMap<String, VValue>>) ensures match r { None => $1.v_obj() is None, Some(s) => $1.v_obj() == Some(s@) }
@closure 1
    |$1: &VMap<String, VValue>| -> (r: Option<(&String, &VValue)>) ensures match r { Some(x) => writes_in($1@, x.0@) && $1@[x.0@] == *x.1, None => !some_writes($1@) }
@closure 2
    |$1: &(&String, &VValue)| -> (r: bool) ensures r == has_stats(*$1.1)
@closure 3
    || -> (r: CoreError)
@closure 4
    |$1: &Vec<VValue>| -> (r: Option<&VValue>) ensures match r { Some(x) => $1@.len() > 0 && *x == $1@[0], None => $1@.len() == 0 }
@closure 5
    |$1: &VValue| -> (r: Option<&str>) ensures match r { Some(x) => v_opt_str(obj_get(*$1, "path"@)) == Some(x@), None => v_opt_str(obj_get(*$1, "path"@)) is None }
@closure 6
    |$1: &VValue| -> (r: Option<&str>) ensures match r { Some(x) => v_opt_str(obj_get(*$1, "baseFile"@)) == Some(x@), None => v_opt_str(obj_get(*$1, "baseFile"@)) is None }
@closure 7
    || -> (r: CoreError)
@closure 8
    |$1: VInfallible| -> (r: CoreError)
@closure 9
    || -> (r: CoreError)
@spec
    ensures match ret { Ok(s) => latest_schema(*self, s), Err(_) => schema_missing(*self) }
@before let (partition_path, write_stats) = commit_metadata
    let ghost m = commit_metadata@;
@after let (partition_path, write_stats) = commit_metadata
    let ghost o = stats_of(m)->Some_0; let ghost p = partition_path@; let ghost ws = o[p];
    proof {
        assert(writes_in(o, p) && *write_stats == ws);
        let k = choose|k: int| #[trigger] last_writer(*self, k) && meta_of(*self, self.completed_commits@[k]) == Some(m);
        assert(last_writer(*self, k));
        assert forall|f: Seq<char>, s: Schema| #![trigger footer_schema(*self.storage, f), latest_schema(*self, s)] named_file(p, ws) == Some(f) && footer_schema(*self.storage, f) == Some(s) implies latest_schema(*self, s) by { assert(names_in(o, p, f)); assert(names_file(meta_of(*self, self.completed_commits@[k])->Some_0, f)); }
        assert(unusable(*self, o, p) ==> schema_missing(*self));
    }
//@end
//@fn crates/core/src/timeline/mod.rs Timeline::get_completed_clustering_commits
@loops 1
@closure 0
    |$1: &VValue| -> (r: Option<&str>) ensures match r { Some(x) => $1.v_str() == Some(x@), None => $1.v_str() is None }
@closure 1
    || -> (r: CoreError)
@spec
    ensures match ret { Ok(v) => clustering_list(*self, v@, desc), Err(_) => match listing(*self.storage, Some(".hoodie"@)) { None => true, Some(names) => some_no_op(*self, names) } }
@loop 0 pre
    let ghost is = vx_it0@; let ghost mut n: int = 0;
    proof { assert forall|i: Instant| is.contains(i) && op_of(*self, i) is None implies some_no_op(*self, listing(*self.storage, Some(".hoodie"@))->Some_0) by { let x = choose|x: int| 0 <= x < is.len() && is[x] == i; let names = listing(*self.storage, Some(".hoodie"@))->Some_0; assert(has_source(is[x], selector, names)); assert(selector.states@[0] == State::Completed && selector.actions@[0] == Action::ReplaceCommit);
        let k = choose|k: int| 0 <= k < names.len() && contributes(selector, #[trigger] names[k], i); assert(denotes(names[k], config_tz(*self.hudi_configs), i)); assert(selector.states@.contains(i.state)); assert(selector.actions@.contains(i.action)); assert(completed_from(i, names, config_tz(*self.hudi_configs))); } }
    proof { assert(clustered(*self, is.take(0)) =~= Seq::empty()); }
@loop 0
    invariant 0 <= n <= is.len(), vx_it0@ == is.subrange(n, is.len() as int), forall|i: Instant| #[trigger] is.contains(i) && op_of(*self, i) is None ==> (match listing(*self.storage, Some(".hoodie"@)) { None => true, Some(names) => some_no_op(*self, names) }), clustering_instants@ == clustered(*self, is.take(n)),
    ensures n == is.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(instant == is[n]); assert(is.contains(is[n])); assert(is.subrange(n, is.len() as int).drop_first() =~= is.subrange(n + 1, is.len() as int)); assert(is.take(n + 1).drop_last() =~= is.take(n)); assert(is.take(n + 1).last() == instant); }
@loop 0 end
    proof { n = n + 1; }
@loop 0 post
    proof { assert(is.take(n) =~= is); }
//@end
//@fn crates/core/src/table/mod.rs Table::get_schema
@spec
    ensures match ret { Ok(s) => latest_schema(self.timeline, s), Err(_) => schema_missing(self.timeline) }
//@end
pub struct PartitionFields;
/// the fields of these names, in the order of the names; names without a field are left out
pub open spec fn picked(names: Seq<String>, all: Seq<Arc<Field>>) -> Seq<Arc<Field>> decreases names.len() {
    if names.len() == 0 { Seq::empty() } else { let rest = picked(names.drop_last(), all); match first_labelled(all, names.last()@, 0) { Some(f) => rest.push(f), None => rest } }
}
pub open spec fn first_labelled(all: Seq<Arc<Field>>, name: Seq<char>, from: int) -> Option<Arc<Field>> decreases all.len() - from { if from < 0 || from >= all.len() { None } else if all[from].label() == name { Some(all[from]) } else { first_labelled(all, name, from + 1) } }
pub proof fn lemma_first(all: Seq<Arc<Field>>, name: Seq<char>, from: int)
    requires 0 <= from <= all.len()
    ensures forall|i: int| from <= i < all.len() && all[i].label() == name && (forall|j: int| from <= j < i ==> (#[trigger] all[j]).label() != name) ==> first_labelled(all, name, from) == Some(#[trigger] all[i]),
        (forall|j: int| from <= j < all.len() ==> (#[trigger] all[j]).label() != name) ==> first_labelled(all, name, from) is None
    decreases all.len() - from
{ if from < all.len() { lemma_first(all, name, from + 1); } }
pub open spec fn by_find(all: Seq<Arc<Field>>, name: Seq<char>, r: Option<(usize, &Arc<Field>)>) -> bool { match r { Some((i, f)) => i < all.len() && *f == all[i as int] && f.label() == name && forall|j: int| 0 <= j < i ==> (#[trigger] all[j]).label() != name, None => forall|j: int| 0 <= j < all.len() ==> (#[trigger] all[j]).label() != name } }
pub open spec fn found(all: Seq<Arc<Field>>, name: Seq<char>, r: Option<(usize, &Arc<Field>)>) -> bool { match r { Some((i, f)) => first_labelled(all, name, 0) == Some(*f), None => first_labelled(all, name, 0) is None } }
/// the columns a table is partitioned by: the configured ones the schema has, in the configured order
pub open spec fn partition_schema_of(t: Table, s: Schema) -> bool { exists|all: Schema| #[trigger] latest_schema(t.timeline, all) && s.fields@ == picked(cfg_to::<Vec<String>>(cfg_val(*t.hudi_configs, PartitionFields))@, all.fields@) && s.rest@ == Map::<Seq<char>, String>::empty() }
pub proof fn lemma_picked(names: Seq<&String>, all: Seq<Arc<Field>>, a: Seq<Option<(usize, &Arc<Field>)>>)
    requires a.len() == names.len(), forall|i: int| 0 <= i < a.len() ==> found(all, names[i]@, #[trigger] a[i])
    ensures somes(a).map_values(|x: (usize, &Arc<Field>)| *x.1) == picked(names.map_values(|x: &String| *x), all)
    decreases a.len()
{
    if a.len() > 0 { lemma_picked(names.drop_last(), all, a.drop_last()); assert(names.map_values(|x: &String| *x).drop_last() =~= names.drop_last().map_values(|x: &String| *x)); assert(found(all, names.last()@, a.last())); assert(somes(a).map_values(|x: (usize, &Arc<Field>)| *x.1) =~= picked(names.map_values(|x: &String| *x), all)); }
    else { assert(somes(a).map_values(|x: (usize, &Arc<Field>)| *x.1) =~= Seq::empty()); }
}
//@fn crates/core/src/table/mod.rs Table::get_partition_schema
@closure 0
    |$1: &String| -> (r: Option<(usize, &Arc<Field>)>) ensures found(schema.fields@, $1@, r)
@closure 1
    |$1: (usize, &Arc<Field>)| -> (r: Arc<Field>) ensures r == *$1.1
@start
    proof { assert forall|all: Seq<Arc<Field>>, name: Seq<char>, r: Option<(usize, &Arc<Field>)>| by_find(all, name, r) implies #[trigger] found(all, name, r) by { lemma_first(all, name, 0); } }
@before let partition_fields: Vec<Arc<Field>>
    let ghost names = partition_fields@; let ghost all = schema.fields@; let ghost refs = names.map_values(|x: String| &x);
    proof { assert(refs.map_values(|x: &String| *x) =~= names);
        assert forall|a: Seq<Option<(usize, &Arc<Field>)>>| a.len() == names.len() && (forall|i: int| 0 <= i < a.len() ==> found(all, names[i]@, #[trigger] a[i])) implies (#[trigger] somes(a)).map_values(|x: (usize, &Arc<Field>)| *x.1) == picked(names, all) by { lemma_picked(refs, all, a); } }
@before Ok(Schema::new
    proof { assert(partition_fields@ =~= picked(names, all)); }
@spec
    ensures match ret { Ok(s) => partition_schema_of(*self, s), Err(_) => schema_missing(self.timeline) }
//@end
//@fn crates/core/src/table/mod.rs Table::get_avro_schema
@spec
    ensures match ret { Ok(s) => self.timeline.completed_commits@.len() > 0 && (meta_of(self.timeline, self.timeline.completed_commits@.last()) matches Some(m) && schema_text(m) == Some(s@)), Err(_) => self.timeline.completed_commits@.len() == 0 || !(meta_of(self.timeline, self.timeline.completed_commits@.last()) matches Some(m) && schema_text(m) is Some) }
//@end
//@prop C05 C16
// ---- planning a snapshot -----------------------------------------------------------------------------
/// the filters a caller's triples denote (C14), the pruner made of them (C13)
pub uninterp spec fn filters_of(t: Seq<(&str, &str, &str)>, fs: Seq<Filter>) -> bool;
/// some triple denotes no filter
pub uninterp spec fn filters_bad(t: Seq<(&str, &str, &str)>) -> bool;
/// the filter cannot be compared with a column of the partition schema
pub uninterp spec fn unbindable(f: Filter, s: Schema) -> bool;
pub open spec fn pruner_refused(fs: Seq<Filter>, s: Schema) -> bool { exists|i: int| 0 <= i < fs.len() && unbindable(#[trigger] fs[i], s) }
pub uninterp spec fn pruner_of(fs: Seq<Filter>, s: Schema, h: HudiConfigs, p: PartitionPruner) -> bool;
#[verifier::external_body] pub fn from_str_tuples(tuples: &[(&str, &str, &str)]) -> (r: Result<Vec<Filter>>) ensures match r { Ok(v) => filters_of(tuples@, v@), Err(_) => filters_bad(tuples@) } { unimplemented!() }
impl PartitionPruner { #[verifier::external_body] pub fn new(and_filters: &[Filter], partition_schema: &Schema, hudi_configs: &HudiConfigs) -> (r: Result<PartitionPruner>) ensures match r { Ok(p) => pruner_of(and_filters@, *partition_schema, *hudi_configs, p), Err(_) => pruner_refused(and_filters@, *partition_schema) } { unimplemented!() } }
/// ex: the groups replaced by commits up to ts
pub open spec fn replaced_as_of(t: Timeline, ts: Seq<char>, ex: Map<GKey, FileGroup>) -> bool { exists|s: &str| #[trigger] replaced_to(t, s, ex) && s@ == ts }
pub open spec fn replaced_to(t: Timeline, s: &str, ex: Map<GKey, FileGroup>) -> bool { forall|key: GKey| #[trigger] ex.dom().contains(key) <==> replaced_in(t, None, Some(s), key) }
/// v: one slice, the newest not after t, of each file group not replaced by then, in the partitions the filters let through
pub open spec fn snapshot_plan(tb: Table, t: Seq<char>, fs: Seq<Filter>, v: Seq<FileSlice>) -> bool {
    exists|ex: Map<GKey, FileGroup>, sc: Schema, pr: PartitionPruner| #[trigger] replaced_as_of(tb.timeline, t, ex) && partition_schema_of(tb, sc) && #[trigger] pruner_of(fs, sc, *tb.hudi_configs, pr)
        && view_slices(tb.file_system_view, t, pr, ex, v) && has_relevant(*tb.file_system_view.partition_to_file_groups, *tb.file_system_view.storage, *tb.file_system_view.hudi_configs, pr)
}
pub open spec fn plan_for(tb: Table, t: Seq<char>, ts: Seq<(&str, &str, &str)>, v: Seq<FileSlice>) -> bool { exists|fs: Seq<Filter>| #[trigger] filters_of(ts, fs) && snapshot_plan(tb, t, fs, v) }
/// there is no plan: the time cannot be read, a replacing commit's metadata cannot be used, the partition columns are not known,
/// a filter cannot be compared with them, or the partitions cannot be listed or a footer read
pub open spec fn snapshot_lost(tb: Table, t: Seq<char>, fs: Seq<Filter>) -> bool {
    ||| exists|s: &str| s@ == t && #[trigger] replaced_lost(tb.timeline, s)
    ||| schema_missing(tb.timeline)
    ||| exists|sc: Schema| #[trigger] partition_schema_of(tb, sc) && pruner_refused(fs, sc)
    ||| exists|ex: Map<GKey, FileGroup>, sc: Schema, pr: PartitionPruner| #[trigger] replaced_as_of(tb.timeline, t, ex) && partition_schema_of(tb, sc) && #[trigger] pruner_of(fs, sc, *tb.hudi_configs, pr)
        && (hindered(*tb.file_system_view.storage, *tb.file_system_view.hudi_configs, pr) || view_lost(tb.file_system_view, t, pr, ex))
}
pub open spec fn replaced_lost(t: Timeline, s: &str) -> bool { !opt_bound_ok(Some(s), config_tz(*t.hudi_configs)) || unreadable_replace_in(t, None, Some(s)) }
pub open spec fn plan_lost(tb: Table, t: Seq<char>, ts: Seq<(&str, &str, &str)>) -> bool { filters_bad(ts) || exists|fs: Seq<Filter>| #[trigger] filters_of(ts, fs) && snapshot_lost(tb, t, fs) }
//@fn crates/core/src/table/mod.rs Table::get_file_slices_internal
@rule method as_ref vx_arc_ref
@start
    proof { assert(replaced_lost(self.timeline, timestamp) ==> snapshot_lost(*self, timestamp@, filters@)); }
@before let partition_schema = 
    proof { assert(replaced_to(self.timeline, timestamp, excludes@)); assert(replaced_as_of(self.timeline, timestamp@, excludes@)); }
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(v) => snapshot_plan(*self, timestamp@, filters@, v@), Err(_) => snapshot_lost(*self, timestamp@, filters@) }
//@end
//@fn crates/core/src/table/mod.rs Table::get_file_slices
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(v) => if self.timeline.completed_commits@.len() == 0 { v@.len() == 0 } else { plan_for(*self, self.timeline.completed_commits@.last().timestamp@, filters@, v@) },
        Err(_) => self.timeline.completed_commits@.len() > 0 && plan_lost(*self, self.timeline.completed_commits@.last().timestamp@, filters@) }
//@end
//@fn crates/core/src/table/mod.rs Table::get_file_slices_as_of
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(v) => plan_for(*self, timestamp@, filters@, v@), Err(_) => plan_lost(*self, timestamp@, filters@) }
//@end
pub open spec fn parts_of(v: Seq<Vec<FileSlice>>) -> Seq<Seq<FileSlice>> { v.map_values(|p: Vec<FileSlice>| p@) }
pub open spec fn split_plan(tb: Table, n: int, t: Seq<char>, fs: Seq<Filter>, parts: Seq<Seq<FileSlice>>) -> bool { exists|v: Seq<FileSlice>| #[trigger] snapshot_plan(tb, t, fs, v) && split_of(v, n, parts) }
//@fn crates/core/src/table/mod.rs Table::get_file_slices_splits_internal
@rule method chunks vx_chunks
@rule method to_vec vx_to_vec
@rule method div_ceil vx_div_ceil
@rule path std::cmp::max vx_max
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(v) => split_plan(*self, n as int, timestamp@, filters@, parts_of(v@)), Err(_) => snapshot_lost(*self, timestamp@, filters@) }
@start
    let ghost n0 = n as int;
    proof { assert forall|a: Seq<FileSlice>, b: Seq<FileSlice>| #[trigger] cloned_all(a, b) implies b == a by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(cloned(a[i], b[i])); } assert(a =~= b); }
        assert forall|v: Seq<Vec<FileSlice>>| v.len() == 0 implies split_of(Seq::empty(), n0, #[trigger] parts_of(v)) by { assert(flat(parts_of(v), 0) == Seq::<FileSlice>::empty()); } }
@before if file_slices.is_empty()
    let ghost fs = file_slices@;
    proof { if fs.len() == 0 { assert(fs =~= Seq::empty()); } }
@before Ok(file_slices
    proof { let m = n as int; let c = chunk_size as int;
        assert forall|v: Seq<Vec<FileSlice>>| v.len() == chunk_count(fs.len() as int, c) && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == chunk(fs, c, i)) implies split_of(fs, n0, #[trigger] parts_of(v)) by { lemma_split(fs, m, c, parts_of(v)); } }
@closure 0
    |$1: &[FileSlice]| -> (r: Vec<FileSlice>) ensures r@ == $1@
//@end
//@fn crates/core/src/table/mod.rs Table::get_file_slices_splits
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures ret is Err ==> self.timeline.completed_commits@.len() > 0 && plan_lost(*self, self.timeline.completed_commits@.last().timestamp@, filters@),
        ret matches Ok(v) ==> if self.timeline.completed_commits@.len() == 0 { v@.len() == 0 } else { exists|fs: Seq<Filter>| #[trigger] filters_of(filters@, fs) && split_plan(*self, n as int, self.timeline.completed_commits@.last().timestamp@, fs, parts_of(v@)) }
//@end
//@fn crates/core/src/table/mod.rs Table::get_file_slices_splits_as_of
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures ret is Err ==> plan_lost(*self, timestamp@, filters@),
        ret matches Ok(v) ==> exists|fs: Seq<Filter>| #[trigger] filters_of(filters@, fs) && split_plan(*self, n as int, timestamp@, fs, parts_of(v@))
//@end
//@prop C05 C06 C12
// ---- reading the planned slices -------------------------------------------------------------------------
pub type Opts = Map<Seq<char>, Seq<char>>;
#[verifier::external_body] pub struct RecordBatch { _p: () }
#[verifier::external_body] pub struct FileGroupReader { _p: () }
impl FileGroupReader {
    /// the options, hoodie and other, a reader goes by
    pub uninterp spec fn opts(self) -> Opts;
    /// the rows of a slice, under the reader's options (reader unit, C12)
    pub uninterp spec fn gives(self, s: FileSlice, b: RecordBatch) -> bool;
    /// the slice cannot be read under those options (reader unit, C12)
    pub uninterp spec fn fails_on(self, s: FileSlice) -> bool;
    #[verifier::external_body] pub fn read_file_slice(&self, s: &FileSlice) -> (r: Result<RecordBatch>) ensures match r { Ok(b) => self.gives(*s, b), Err(_) => self.fails_on(*s) } { unimplemented!() }
}
//@type crates/core/src/config/read.rs HudiReadConfig structural
pub open spec fn read_key(c: HudiReadConfig) -> Seq<char> { match c { HudiReadConfig::FileGroupStartTimestamp => "hoodie.read.file_group.start_timestamp"@, HudiReadConfig::FileGroupEndTimestamp => "hoodie.read.file_group.end_timestamp"@, HudiReadConfig::InputPartitions => "hoodie.read.input.partitions"@, HudiReadConfig::ListingParallelism => "hoodie.read.listing.parallelism"@, HudiReadConfig::UseReadOptimizedMode => "hoodie.read.use.read_optimized.mode"@ } }
/// the options a table was opened with (its hoodie options and its storage options)
pub uninterp spec fn opened_with(h: HudiConfigs, so: VMap<String, String>) -> Opts;
pub open spec fn table_opts(tb: Table) -> Opts { opened_with(*tb.hudi_configs, *tb.storage_options) }
pub open spec fn given_opts(e: Seq<(HudiReadConfig, &str)>) -> Opts decreases e.len() { if e.len() == 0 { Map::empty() } else { given_opts(e.drop_last()).insert(read_key(e.last().0), e.last().1@) } }
pub proof fn lemma_given_opts()
    ensures forall|a: [(HudiReadConfig, &str); 1]| #![trigger given_opts(a@)] given_opts(a@) =~= Map::<Seq<char>, Seq<char>>::empty().insert(read_key(a@[0].0), a@[0].1@),
        forall|a: [(HudiReadConfig, &str); 2]| #![trigger given_opts(a@)] given_opts(a@) =~= Map::<Seq<char>, Seq<char>>::empty().insert(read_key(a@[0].0), a@[0].1@).insert(read_key(a@[1].0), a@[1].1@),
        "hoodie.read.file_group.start_timestamp"@ != "hoodie.read.file_group.end_timestamp"@
{
    reveal_with_fuel(given_opts, 3);
    reveal_strlit("hoodie.read.file_group.start_timestamp"); reveal_strlit("hoodie.read.file_group.end_timestamp");
    assert("hoodie.read.file_group.start_timestamp"@.len() != "hoodie.read.file_group.end_timestamp"@.len());
}
/// no reader can be made with the options: they do not resolve (C17)
pub uninterp spec fn no_reader(o: Opts) -> bool;
pub open spec fn slices_fail(rd: FileGroupReader, v: Seq<FileSlice>) -> bool { exists|i: int| 0 <= i < v.len() && rd.fails_on(#[trigger] v[i]) }
pub open spec fn snapshot_unread(tb: Table, t: Seq<char>, fs: Seq<Filter>) -> bool {
    snapshot_lost(tb, t, fs) || no_reader(end_opts(tb, t)) || exists|rd: FileGroupReader, v: Seq<FileSlice>| #[trigger] slices_fail(rd, v) && rd.opts() == end_opts(tb, t) && snapshot_plan(tb, t, fs, v)
}
pub open spec fn rows_lost(tb: Table, t: Seq<char>, ts: Seq<(&str, &str, &str)>) -> bool { filters_bad(ts) || exists|fs: Seq<Filter>| #[trigger] filters_of(ts, fs) && snapshot_unread(tb, t, fs) }
pub open spec fn window_unread(tb: Table, s: Seq<char>, e: Seq<char>) -> bool {
    window_lost(tb.timeline, s, e) || no_reader(window_opts(tb, s, e)) || exists|rd: FileGroupReader, v: Seq<FileSlice>| #[trigger] slices_fail(rd, v) && rd.opts() == window_opts(tb, s, e) && incremental_plan(tb.timeline, s, e, v)
}
impl Table { /// (config unit, C17)
    #[verifier::external_body] pub fn create_file_group_reader_with_options<const N: usize>(&self, options: [(HudiReadConfig, &str); N]) -> (r: Result<FileGroupReader>)
        ensures match r { Ok(rd) => rd.opts() == table_opts(*self).union_prefer_right(given_opts(options@)), Err(_) => no_reader(table_opts(*self).union_prefer_right(given_opts(options@))) } { unimplemented!() } }
/// futures: the results in order, or an error of one of them
#[verifier::external_body] pub fn vx_try_join_all<T>(it: VIter<Result<T>>) -> (r: Result<Vec<T>>)
    ensures match r { Ok(v) => v@.len() == it@.len() && forall|i: int| 0 <= i < v@.len() ==> it@[i] == Ok::<T, CoreError>(#[trigger] v@[i]), Err(_) => exists|i: int| 0 <= i < it@.len() && (#[trigger] it@[i]) is Err } { unimplemented!() }
/// batch i holds the rows of slice i
pub open spec fn reads(rd: FileGroupReader, v: Seq<FileSlice>, b: Seq<RecordBatch>) -> bool { v.len() == b.len() && forall|i: int| 0 <= i < v.len() ==> rd.gives(#[trigger] v[i], b[i]) }
pub open spec fn end_opts(tb: Table, t: Seq<char>) -> Opts { table_opts(tb).insert("hoodie.read.file_group.end_timestamp"@, t) }
pub open spec fn window_opts(tb: Table, s: Seq<char>, e: Seq<char>) -> Opts { table_opts(tb).insert("hoodie.read.file_group.start_timestamp"@, s).insert("hoodie.read.file_group.end_timestamp"@, e) }
/// each slice of the plan as of t is read, once, as of t
pub open spec fn snapshot_rows(tb: Table, t: Seq<char>, fs: Seq<Filter>, b: Seq<RecordBatch>) -> bool { exists|rd: FileGroupReader, v: Seq<FileSlice>| #[trigger] reads(rd, v, b) && rd.opts() == end_opts(tb, t) && snapshot_plan(tb, t, fs, v) }
pub open spec fn rows_for(tb: Table, t: Seq<char>, ts: Seq<(&str, &str, &str)>, b: Seq<RecordBatch>) -> bool { exists|fs: Seq<Filter>| #[trigger] filters_of(ts, fs) && snapshot_rows(tb, t, fs, b) }
/// each slice of the plan of the window is read, once, over the window
pub open spec fn window_rows(tb: Table, s: Seq<char>, e: Seq<char>, b: Seq<RecordBatch>) -> bool { exists|rd: FileGroupReader, v: Seq<FileSlice>| #[trigger] reads(rd, v, b) && rd.opts() == window_opts(tb, s, e) && incremental_plan(tb.timeline, s, e, v) }
//@rule path futures::future::try_join_all vx_try_join_all
//@fn crates/core/src/table/mod.rs Table::read_snapshot_internal
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(b) => snapshot_rows(*self, timestamp@, filters@, b@), Err(_) => snapshot_unread(*self, timestamp@, filters@) }
@start
    proof { lemma_given_opts(); assert forall|a: [(HudiReadConfig, &str); 1]| a@[0].0 == HudiReadConfig::FileGroupEndTimestamp && a@[0].1@ == timestamp@ implies #[trigger] table_opts(*self).union_prefer_right(given_opts(a@)) == end_opts(*self, timestamp@) by { assert(table_opts(*self).union_prefer_right(given_opts(a@)) =~= end_opts(*self, timestamp@)); } }
@before let batches =
    let ghost rd = fg_reader; let ghost fv = file_slices@;
    proof { assert(forall|i: int| 0 <= i < fv.len() && rd.fails_on(#[trigger] fv[i]) ==> slices_fail(rd, fv)); }
@closure 0
    |$1: &FileSlice| -> (r: Result<RecordBatch>) ensures match r { Ok(b) => fg_reader.gives(*$1, b), Err(_) => fg_reader.fails_on(*$1) }
@before Ok(batches)
    proof { lemma_given_opts(); assert(fg_reader.opts() =~= end_opts(*self, timestamp@)); assert(reads(fg_reader, file_slices@, batches@)); }
//@end
//@fn crates/core/src/table/mod.rs Table::read_snapshot
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(b) => if self.timeline.completed_commits@.len() == 0 { b@.len() == 0 } else { rows_for(*self, self.timeline.completed_commits@.last().timestamp@, filters@, b@) },
        Err(_) => self.timeline.completed_commits@.len() > 0 && rows_lost(*self, self.timeline.completed_commits@.last().timestamp@, filters@) }
//@end
//@fn crates/core/src/table/mod.rs Table::read_snapshot_as_of
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures match ret { Ok(b) => rows_for(*self, timestamp@, filters@, b@), Err(_) => rows_lost(*self, timestamp@, filters@) }
//@end
//@fn crates/core/src/table/mod.rs Table::read_incremental_records
@rule method or_else vx_or_else
@spec
    requires self.wf(), self.file_system_view.wf()
    ensures ret is Err ==> match end_timestamp { Some(e) => window_unread(*self, start_timestamp@, e@), None => self.timeline.completed_commits@.len() > 0 && window_unread(*self, start_timestamp@, self.timeline.completed_commits@.last().timestamp@) },
        ret matches Ok(b) ==> match end_timestamp { Some(e) => window_rows(*self, start_timestamp@, e@, b@), None => if self.timeline.completed_commits@.len() == 0 { b@.len() == 0 } else { window_rows(*self, start_timestamp@, self.timeline.completed_commits@.last().timestamp@, b@) } }
@closure 0
    || -> (r: Option<&str>) ensures match r { None => self.timeline.completed_commits@.len() == 0, Some(t) => self.timeline.completed_commits@.len() > 0 && t@ == self.timeline.completed_commits@.last().timestamp@ }
@start
    proof { lemma_given_opts(); assert forall|a: [(HudiReadConfig, &str); 2], e: Seq<char>| a@[0].0 == HudiReadConfig::FileGroupStartTimestamp && a@[0].1@ == start_timestamp@ && a@[1].0 == HudiReadConfig::FileGroupEndTimestamp && a@[1].1@ == e implies #[trigger] table_opts(*self).union_prefer_right(given_opts(a@)) == #[trigger] window_opts(*self, start_timestamp@, e) by { assert(table_opts(*self).union_prefer_right(given_opts(a@)) =~= window_opts(*self, start_timestamp@, e)); } }
@before let batches =
    let ghost rd = fg_reader; let ghost fv = file_slices@;
    proof { assert(forall|i: int| 0 <= i < fv.len() && rd.fails_on(#[trigger] fv[i]) ==> slices_fail(rd, fv)); }
@closure 1
    |$1: &FileSlice| -> (r: Result<RecordBatch>) ensures match r { Ok(b) => fg_reader.gives(*$1, b), Err(_) => fg_reader.fails_on(*$1) }
@before Ok(batches)
    proof { lemma_given_opts(); assert(fg_reader.opts() =~= window_opts(*self, start_timestamp@, end_timestamp@)); assert(reads(fg_reader, file_slices@, batches@)); }
//@end
}
