//@include prelude.rs
//@include collections.rs
//@include error.rs
verus! {
//@rule eq_ops
//@rule opaque_fmt
//@rule method to_string vx_to_string
//@rule method to_owned vx_to_string
//@rule method iter vx_iter
//@rule method split vx_split
//@rule method contains vx_contains
//@rule method ends_with vx_ends_with
//@rule path HashMap VMap
//@rule path InvalidPath StorageError::InvalidPath
//@rule path UrlParseError StorageError::UrlParseError
//@rule path crate::storage::Result StorageResult
//@rule path Result StorageResult
//@prop C18
pub type StorageResult<T, E = StorageError> = core::result::Result<T, E>;

// ---- the url crate, by assumed contract -----------------------------------------------------------
/// A URL: a place (scheme, authority) and the levels of its path, decoded.  A path ending in a
/// separator has an empty last level; one that cannot be a base has no levels.
#[verifier::external_body] pub struct Url { _p: () }
impl Url {
    pub uninterp spec fn place(&self) -> Seq<char>;
    pub uninterp spec fn opaque(&self) -> bool;
    pub uninterp spec fn levels(&self) -> Seq<Seq<char>>;
    /// the path as it is written, encoded
    pub uninterp spec fn url_path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn path<'a>(&'a self) -> (r: &'a str) ensures r@ == self.url_path() { unimplemented!() }
}
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn slash_end(l: Seq<Seq<char>>) -> bool { l.len() > 0 && l.last().len() == 0 }
pub broadcast axiom fn ax_path_end(u: Url) requires !u.opaque() ensures is_suffix(seq!['/'], #[trigger] u.url_path()) == slash_end(u.levels());
/// `Url` leaves a tab or line break out of what it is given, and gives no level to `.` or `..`
pub open spec fn kept(s: Seq<char>) -> bool { !s.contains('\t') && !s.contains('\n') && !s.contains('\r') && s != ".."@ }
pub open spec fn no_dot(s: Seq<char>) -> bool { s != "."@ }
/// path levels with more behind them: the path `/` has one level, which is empty
pub open spec fn appended(l: Seq<Seq<char>>, more: Seq<Seq<char>>) -> Seq<Seq<char>> { if l == seq![Seq::<char>::empty()] && more.len() > 0 { more } else { l + more } }
pub open spec fn popped(l: Seq<Seq<char>>) -> Seq<Seq<char>> { if l.len() <= 1 { seq![Seq::<char>::empty()] } else { l.drop_last() } }
/// `PathSegmentsMut`: a path being changed
pub struct VSegs<'a> { pub u: &'a mut Url }
impl Url {
    #[verifier::external_body] pub fn path_segments_mut<'a>(&'a mut self) -> (r: core::result::Result<VSegs<'a>, ()>)
        ensures match r { Ok(s) => !old(self).opaque() && *s.u == *old(self) && *final(s.u) == *final(self), Err(_) => old(self).opaque() && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn parse(s: &str) -> (r: core::result::Result<Url, UrlErr>) ensures match r { Ok(u) => url_of(s@) == Some(u), Err(_) => url_of(s@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_directory_path(s: &str) -> (r: core::result::Result<Url, ()>) ensures match r { Ok(u) => dir_url(s@) == Some(u), Err(_) => dir_url(s@) is None } { unimplemented!() }
}
/// the URL a text is, and the URL of a directory
pub uninterp spec fn url_of(s: Seq<char>) -> Option<Url>;
pub uninterp spec fn dir_url(s: Seq<char>) -> Option<Url>;
impl<'a> VSegs<'a> {
    #[verifier::external_body] pub fn pop(self) ensures final(self.u).place() == old(self.u).place(), !final(self.u).opaque(), final(self.u).levels() == popped(old(self.u).levels()) { unimplemented!() }
    #[verifier::external_body] pub fn extend(self, v: Vec<&str>) ensures final(self.u).place() == old(self.u).place(), !final(self.u).opaque(),
        (forall|i: int| 0 <= i < v@.len() ==> kept(#[trigger] v@[i]@)) ==> final(self.u).levels() == appended(old(self.u).levels(), dotless(svs(v@))) { unimplemented!() }
}
pub open spec fn dotless(ns: Seq<Seq<char>>) -> Seq<Seq<char>> { ns.filter(|x: Seq<char>| no_dot(x)) }
pub open spec fn svs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub trait VxContains<T> { fn vx_contains(&self, x: T) -> bool; }
impl VxContains<[char; 3]> for str { #[verifier::external_body] fn vx_contains(&self, x: [char; 3]) -> (r: bool) ensures r == (self@.contains(x@[0]) || self@.contains(x@[1]) || self@.contains(x@[2])) { unimplemented!() } }

// ---- a base and what lies below it ----------------------------------------------------------------
pub open spec fn trimmed(l: Seq<Seq<char>>) -> Seq<Seq<char>> { if slash_end(l) { popped(l) } else { l } }
/// the levels that have a name
pub open spec fn whole(l: Seq<Seq<char>>) -> Seq<Seq<char>> { l.filter(|x: Seq<char>| x.len() > 0) }
/// the names a relative path is made of
pub open spec fn names(s: Seq<char>) -> Seq<Seq<char>> { whole(split_char(s, '/')) }
pub open spec fn all_names(segs: Seq<&str>) -> Seq<Seq<char>> decreases segs.len() { if segs.len() == 0 { Seq::empty() } else { all_names(segs.drop_last()) + names(segs.last()@) } }
pub open spec fn all_kept(ns: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> kept(#[trigger] ns[i]) }
/// u is base with these names below it
pub open spec fn below(base: Url, ns: Seq<Seq<char>>, u: Url) -> bool { u.place() == base.place() && !u.opaque() && u.levels() == appended(trimmed(base.levels()), dotless(ns)) }
/// a URL that has to be a base does not end in a separator when it is none
pub open spec fn usable(u: Url) -> bool { u.opaque() ==> !is_suffix(seq!['/'], u.url_path()) }
pub proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_all(s.drop_last(), p); }
}
pub proof fn lemma_filter_cat<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool) ensures (a + b).filter(p) == a.filter(p) + b.filter(p) decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(b.filter(p) =~= Seq::empty()); assert(a.filter(p) + b.filter(p) =~= a.filter(p)); }
    else {
        lemma_filter_cat(a, b.drop_last(), p);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        if p(b.last()) { assert(a.filter(p) + b.drop_last().filter(p).push(b.last()) =~= (a.filter(p) + b.drop_last().filter(p)).push(b.last())); }
    }
}
/// names put behind names
pub proof fn lemma_appended(l: Seq<Seq<char>>, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() > 0
    ensures appended(appended(l, a), b) == appended(l, a + b)
{
    let root = seq![Seq::<char>::empty()];
    if a.len() == 0 { assert(a + b =~= b); assert(l + a =~= l); }
    else {
        let x = appended(l, a);
        assert(x != root) by { assert(x.last() == a.last()); assert(root.last().len() == 0); }
        assert((l + a) + b =~= l + (a + b));
    }
}
/// filtering texts is filtering what they say
pub proof fn lemma_texts_filter(v: Seq<&str>, w: Seq<Seq<char>>, g: spec_fn(&str) -> bool)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i], forall|i: int| 0 <= i < v.len() ==> g(#[trigger] v[i]) == (v[i]@.len() > 0)
    ensures svs(v.filter(g)) == whole(w)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() == 0 { assert(svs(v.filter(g)) =~= whole(w)); }
    else {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i])@ == w.drop_last()[i] && g(v.drop_last()[i]) == (v.drop_last()[i]@.len() > 0) by { assert(v.drop_last()[i] == v[i]); }
        lemma_texts_filter(v.drop_last(), w.drop_last(), g);
        assert(v.last()@ == w.last()) by { assert(v[v.len() - 1]@ == w[w.len() - 1]); }
        assert(g(v.last()) == (v.last()@.len() > 0)) by { assert(g(v[v.len() - 1]) == (v[v.len() - 1]@.len() > 0)); }
        assert(svs(v.filter(g)) =~= whole(w));
    }
}
/// one more relative path
pub proof fn lemma_step(l: Seq<Seq<char>>, segs: Seq<&str>, n: int)
    requires 0 < n <= segs.len()
    ensures all_names(segs.subrange(0, n)) == all_names(segs.subrange(0, n - 1)) + names(segs[n - 1]@),
        appended(appended(l, dotless(all_names(segs.subrange(0, n - 1)))), dotless(names(segs[n - 1]@))) == appended(l, dotless(all_names(segs.subrange(0, n)))),
        all_kept(all_names(segs.subrange(0, n))) == (all_kept(all_names(segs.subrange(0, n - 1))) && all_kept(names(segs[n - 1]@)))
{
    let (a, b) = (all_names(segs.subrange(0, n - 1)), names(segs[n - 1]@));
    assert(segs.subrange(0, n).drop_last() =~= segs.subrange(0, n - 1));
    assert(all_names(segs.subrange(0, n)) == a + b);
    lemma_filter_cat(a, b, |x: Seq<char>| no_dot(x));
    lemma_named(segs.subrange(0, n - 1));
    lemma_dotless(a);
    lemma_appended(l, dotless(a), dotless(b));
    assert forall|i: int| 0 <= i < b.len() implies (a + b)[a.len() + i] == #[trigger] b[i] by {}
    if all_kept(a + b) { assert forall|i: int| 0 <= i < a.len() implies kept(#[trigger] a[i]) by { assert(kept((a + b)[i])); } assert forall|i: int| 0 <= i < b.len() implies kept(#[trigger] b[i]) by { assert(kept((a + b)[a.len() + i])); } }
}
pub proof fn lemma_dotless(a: Seq<Seq<char>>) requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() > 0 ensures forall|i: int| 0 <= i < dotless(a).len() ==> (#[trigger] dotless(a)[i]).len() > 0 decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).len() > 0 by { assert(a[i].len() > 0); }
        lemma_dotless(a.drop_last()); assert(a.last().len() > 0) by { assert(a[a.len() - 1].len() > 0); }
        let d = dotless(a.drop_last());
        assert forall|i: int| 0 <= i < dotless(a).len() implies (#[trigger] dotless(a)[i]).len() > 0 by { if i < d.len() { assert(d[i].len() > 0); } }
    }
}
/// no name is empty
pub proof fn lemma_named(segs: Seq<&str>) ensures forall|i: int| 0 <= i < all_names(segs).len() ==> (#[trigger] all_names(segs)[i]).len() > 0 decreases segs.len()
{
    if segs.len() > 0 {
        let (a, b) = (all_names(segs.drop_last()), names(segs.last()@));
        lemma_named(segs.drop_last()); lemma_filter_all(split_char(segs.last()@, '/'), |x: Seq<char>| x.len() > 0);
        assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).len() > 0 by { if i < a.len() { assert(a[i].len() > 0); } else { assert(b[i - a.len()].len() > 0); } }
    }
}
/// a path that is refused stays refused with more behind it
pub proof fn lemma_refused(segs: Seq<&str>, n: int) requires 0 <= n <= segs.len(), !all_kept(all_names(segs.subrange(0, n))) ensures !all_kept(all_names(segs)) decreases segs.len() - n
{
    if n < segs.len() { lemma_step(Seq::empty(), segs, n + 1); lemma_refused(segs, n + 1); } else { assert(segs.subrange(0, n) =~= segs); }
}
//@fn crates/core/src/storage/util.rs parse_uri
@spec
    ensures match ret { Ok(u) => read_as(uri@, u), Err(_) => unreadable(uri@) }
@start
    proof { broadcast use ax_path_end; reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
//@end
/// u is the URL b without a separator at its end
pub open spec fn from_text(b: Url, u: Url) -> bool { u == b || (u.place() == b.place() && !u.opaque() && !b.opaque() && u.levels() == trimmed(b.levels())) }
//@fn crates/core/src/storage/util.rs join_url_segments
@spec
    requires usable(*base_url)
    ensures match ret { Ok(u) => (all_kept(all_names(segments@)) && below(*base_url, all_names(segments@), u)) || (segments@.len() == 0 && base_url.opaque()),
        Err(_) => base_url.opaque() || !all_kept(all_names(segments@)) }
@start
    proof { broadcast use ax_path_end; }
@loop 0 pre
    let ghost all = vx_it0@; let ghost mut n = 0int; let ghost b = *base_url;
    proof { assert(dotless(Seq::<Seq<char>>::empty()) =~= Seq::<Seq<char>>::empty()); assert(all.subrange(0, all.len() as int) =~= all); assert(segments@.subrange(0, 0) =~= Seq::empty()); if all.len() == 0 { assert(segments@ =~= segments@.subrange(0, 0)); } assert(trimmed(b.levels()) + Seq::<Seq<char>>::empty() =~= trimmed(b.levels())); }
@loop 0
    invariant b == *base_url, all.len() == segments@.len(), forall|i: int| #![trigger all[i]] #![trigger segments@[i]] 0 <= i < all.len() ==> *all[i] == segments@[i],
        0 <= n <= all.len(), vx_it0@ == all.subrange(n, all.len() as int), n == all.len() ==> segments@.subrange(0, n) == segments@,
        b.opaque() ==> url.opaque() && n == 0,
        !b.opaque() ==> all_kept(all_names(segments@.subrange(0, n))) && below(b, all_names(segments@.subrange(0, n)), url)
    ensures n == all.len(), b.opaque() ==> n == 0, !b.opaque() ==> all_kept(all_names(segments@)) && below(b, all_names(segments@), url)
    decreases vx_it0@.len()
@loop 0 start
    let ghost w = split_char(all[n]@, '/');
    proof {
        n = n + 1; lemma_step(trimmed(b.levels()), segments@, n); if !all_kept(names(all[n - 1]@)) { lemma_refused(segments@, n); }
        assert forall|v: Seq<&str>, g: spec_fn(&str) -> bool| #![trigger v.filter(g)] (v.len() == w.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i]) && (forall|i: int| 0 <= i < v.len() ==> g(#[trigger] v[i]) == (v[i]@.len() > 0))) implies svs(v.filter(g)) == whole(w) && (forall|i: int| 0 <= i < v.filter(g).len() ==> (#[trigger] v.filter(g)[i])@ == whole(w)[i]) by { lemma_texts_filter(v, w, g); assert forall|i: int| 0 <= i < v.filter(g).len() implies (#[trigger] v.filter(g)[i])@ == whole(w)[i] by { assert(svs(v.filter(g))[i] == whole(w)[i]); } }
        if n == segments@.len() { assert(segments@.subrange(0, n) =~= segments@); }
    }
@closure 0
    |$1: &&str| -> (r: bool) ensures r == ((*$1)@.len() > 0)
@closure 1
    |$1: &&str| -> (r: bool) ensures r == !kept((**$1)@)
//@end

// ---- the object store, by assumed contract ------------------------------------------------------
//@rule path dynObjectStore VObjectStore
//@rule path Bytes VBytes
//@rule path PathBuf VPathBuf
//@rule path StorageError::ReaderError vx_reader_error
#[verifier::external_body] pub struct VObjectStore { _p: () }
#[verifier::external_body] pub struct HudiConfigs { _p: () }
//@type crates/core/src/config/mod.rs HudiConfigValue
//@type crates/core/src/config/table.rs HudiTableConfig
impl HudiConfigs {
    /// an option's value: what is set, or its default (proved of `try_get` in unit config)
    pub uninterp spec fn value(&self, c: HudiTableConfig) -> Option<HudiConfigValue>;
    #[verifier::external_body] pub fn try_get(&self, c: HudiTableConfig) -> (r: Option<HudiConfigValue>) ensures r == self.value(c), c is BasePath && r is Some ==> r->Some_0 is String { unimplemented!() }
}
/// the store a URL and options name
pub uninterp spec fn store_of(u: Url, o: Map<Seq<char>, String>) -> Option<VObjectStore>;
#[verifier::external_body] pub struct VOtherErr { _p: () }
#[verifier::external_body] pub fn vx_parse_url_opts(u: &Url, o: &VMap<String, String>) -> (r: core::result::Result<(VObjectStore, ObjPath), VOtherErr>) ensures match r { Ok(x) => store_of(*u, o@) == Some(x.0), Err(_) => store_of(*u, o@) is None } { unimplemented!() }
//@rule path parse_url_opts vx_parse_url_opts
//@rule path Creation StorageError::Creation
#[verifier::external_body] pub struct VBytes { _p: () }
impl View for VBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// what lies at and below a place
pub struct Tree { pub dirs: Seq<(Seq<char>, Tree)>, pub files: Seq<(Seq<char>, nat)> }
/// a place an object store has no path for
pub uninterp spec fn refused(at: Seq<Seq<char>>) -> bool;
impl VObjectStore {
    /// the store fails, or has nothing, at a place
    pub uninterp spec fn down(&self, at: Seq<Seq<char>>) -> bool;
    pub uninterp spec fn tree(&self, at: Seq<Seq<char>>) -> Tree;
    pub uninterp spec fn content(&self, at: Seq<Seq<char>>) -> Option<Seq<u8>>;
}
/// the tree below a directory of a tree; entries have names
pub axiom fn ax_tree(st: VObjectStore, at: Seq<Seq<char>>, i: int)
    requires 0 <= i < st.tree(at).dirs.len()
    ensures st.tree(at.push(st.tree(at).dirs[i].0)) == st.tree(at).dirs[i].1, entry_name(st.tree(at).dirs[i].0);
pub open spec fn entry_name(s: Seq<char>) -> bool { s.len() > 0 && !s.contains('/') && s != "."@ && s != ".."@ }
#[verifier::external_body] pub struct ObjPath { _p: () }
impl Clone for ObjPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ObjPath {
    pub uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn from_url_path(s: &str) -> (r: core::result::Result<ObjPath, ObjPathErr>) ensures forall|u: Url| !u.opaque() && #[trigger] u.url_path() == s@ ==> match r { Ok(p) => p.parts() == whole(u.levels()), Err(_) => refused(whole(u.levels())) } { unimplemented!() }
    #[verifier::external_body] pub fn filename<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { Some(s) => self.parts().len() > 0 && s@ == self.parts().last(), None => self.parts().len() == 0 } { unimplemented!() }
}
/// where an absolute path of the file system leads in an object store
pub uninterp spec fn disk_parts(s: Seq<char>) -> Option<Seq<Seq<char>>>;
impl ObjPath {
    #[verifier::external_body] pub fn from_absolute_path(p: VPathBuf) -> (r: core::result::Result<ObjPath, ObjPathErr>) ensures match r { Ok(q) => disk_parts(p.text()) == Some(q.parts()), Err(_) => disk_parts(p.text()) is None } { unimplemented!() }
}
pub struct VObjectMeta { pub location: ObjPath, pub size: usize }
pub struct VListResult { pub common_prefixes: Vec<ObjPath>, pub objects: Vec<VObjectMeta> }
#[verifier::external_body] pub struct VGetResult { _p: () }
impl VGetResult { pub uninterp spec fn data(&self) -> Seq<u8>; pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn bytes(self) -> (r: core::result::Result<VBytes, ObjStoreErr>) ensures match r { Ok(b) => b@ == self.data(), Err(_) => self.broken() } { unimplemented!() } }
impl VObjectStore {
    #[verifier::external_body] pub fn list_with_delimiter(&self, p: Option<&ObjPath>) -> (r: core::result::Result<VListResult, ObjStoreErr>) requires p is Some
        ensures r is Err ==> self.down(p->Some_0.parts()), r matches Ok(l) ==> {
            let (at, t) = (p->Some_0.parts(), self.tree(p->Some_0.parts()));
            &&& l.common_prefixes@.len() == t.dirs.len() && forall|i: int| #![trigger l.common_prefixes@[i]] #![trigger t.dirs[i]] 0 <= i < t.dirs.len() ==> l.common_prefixes@[i].parts() == at.push(t.dirs[i].0)
            &&& l.objects@.len() == t.files.len() && forall|i: int| #![trigger l.objects@[i]] #![trigger t.files[i]] 0 <= i < t.files.len() ==> l.objects@[i].location.parts() == at.push(t.files[i].0) && l.objects@[i].size == t.files[i].1
        } { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &ObjPath) -> (r: core::result::Result<VGetResult, ObjStoreErr>) ensures match r { Ok(g) => self.content(p.parts()) == Some(g.data()) && (g.broken() ==> self.down(p.parts())), Err(_) => self.down(p.parts()) } { unimplemented!() }
    #[verifier::external_body] pub fn head(&self, p: &ObjPath) -> (r: core::result::Result<VObjectMeta, ObjStoreErr>) ensures match r { Ok(m) => m.location.parts() == p.parts() && (self.content(p.parts()) matches Some(c) && m.size == c.len()), Err(_) => self.down(p.parts()) } { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<ObjPathErr> for StorageError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ObjPathErr) -> StorageError { StorageError::ObjectStorePathError(e) } }
impl core::convert::From<ObjPathErr> for StorageError { fn from(e: ObjPathErr) -> StorageError { StorageError::ObjectStorePathError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ObjStoreErr> for StorageError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ObjStoreErr) -> StorageError { StorageError::ObjectStoreError(e) } }
impl core::convert::From<ObjStoreErr> for StorageError { fn from(e: ObjStoreErr) -> StorageError { StorageError::ObjectStoreError(e) } }
//@type crates/core/src/storage/mod.rs Storage
//@type crates/core/src/storage/file_metadata.rs FileMetadata
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (a: &Arc<T, A>) -> (r: &T) ensures r == &**a;
//@fn crates/core/src/config/mod.rs HudiConfigValue::to_url
@spec
    requires self is String
    ensures match ret { Ok(u) => read_as(self->String_0@, u), Err(_) => unreadable(self->String_0@) }
//@end
/// a text that is no URL of a place with paths
pub open spec fn unreadable(t: Seq<char>) -> bool { match url_of(t) { Some(b) => !usable(b), None => dir_url(t) matches Some(b) ==> !usable(b) } }
/// u is what a text is read as
pub open spec fn read_as(t: Seq<char>, u: Url) -> bool { usable(u) && ((url_of(t) matches Some(b) && from_text(b, u)) || (url_of(t) is None && (dir_url(t) matches Some(b) && from_text(b, u)))) }
pub open spec fn base_text(h: HudiConfigs) -> Option<Seq<char>> { match h.value(HudiTableConfig::BasePath) { Some(HudiConfigValue::String(t)) => Some(t@), _ => None } }
//@fn crates/core/src/storage/mod.rs Storage::new
@spec
    ensures match ret {
        Ok(st) => st.options == options && st.hudi_configs == hudi_configs && (base_text(*hudi_configs) matches Some(t) && read_as(t, *st.base_url)) && store_of(*st.base_url, options@) == Some(*st.object_store),
        Err(_) => base_text(*hudi_configs) matches Some(t) ==> unreadable(t) || exists|u: Url| read_as(t, u) && #[trigger] store_of(u, options@) is None }
//@end
/// a String made into a String is itself
pub broadcast axiom fn ax_into(a: String, b: String) requires #[trigger] call_ensures(<String as Into<String>>::into, (a,), b) ensures b@ == a@;
//@fn crates/core/src/storage/file_metadata.rs FileMetadata::new
@spec
    ensures call_ensures(<_ as Into<String>>::into, (name,), ret.name), ret.size == size, !ret.fully_populated
//@end
/// where a relative path leads: the base, and the path's names below it
pub open spec fn spot(st: Storage, rel: Seq<char>) -> Seq<Seq<char>> { whole(st.base_url.levels()) + dotless(names(rel)) }
pub open spec fn clean(rel: Seq<char>) -> bool { all_kept(names(rel)) }
pub open spec fn sub_text(s: Option<&str>) -> Seq<char> { match s { Some(x) => x@, None => Seq::empty() } }
pub proof fn lemma_whole_appended(l: Seq<Seq<char>>, ns: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).len() > 0
    ensures whole(appended(trimmed(l), ns)) == whole(l) + ns
{
    let p = |x: Seq<char>| x.len() > 0;
    let root = seq![Seq::<char>::empty()];
    lemma_keeps(ns);
    assert(whole(root) =~= Seq::<Seq<char>>::empty()) by { reveal(Seq::filter); assert(root.drop_last() =~= Seq::<Seq<char>>::empty()); assert(root.drop_last().filter(p) =~= Seq::<Seq<char>>::empty()); }
    let t = trimmed(l);
    assert(whole(t) == whole(l)) by { if slash_end(l) { reveal(Seq::filter); if l.len() <= 1 { assert(l[0] =~= Seq::<char>::empty()); assert(l =~= root); } else { assert(!p(l.last())); } } }
    if t == root && ns.len() > 0 { assert(whole(l) + ns =~= ns); } else { lemma_filter_cat(t, ns, p); }
}
pub proof fn lemma_keeps(ns: Seq<Seq<char>>) requires forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).len() > 0 ensures whole(ns) == ns decreases ns.len()
{
    reveal(Seq::filter);
    if ns.len() > 0 {
        assert forall|i: int| 0 <= i < ns.drop_last().len() implies (#[trigger] ns.drop_last()[i]).len() > 0 by { assert(ns[i].len() > 0); }
        lemma_keeps(ns.drop_last()); assert(ns[ns.len() - 1].len() > 0); assert(ns.drop_last().push(ns.last()) =~= ns);
    } else { assert(whole(ns) =~= ns); }
}
pub proof fn lemma_one(segs: Seq<&str>) requires segs.len() == 1 ensures all_names(segs) == names(segs[0]@)
{
    let e = segs.drop_last();
    assert(all_names(e) =~= Seq::<Seq<char>>::empty());
    assert(all_names(e) + names(segs.last()@) =~= names(segs.last()@));
}
/// why nothing can be had from a place: the base takes no names, the path is refused, the store fails
pub open spec fn barred(st: Storage, rel: Seq<char>) -> bool { st.base_url.opaque() || !clean(rel) || refused(spot(st, rel)) || st.object_store.down(spot(st, rel)) }
/// one relative path joined: the URL's named levels are the path's spot
pub proof fn lemma_spot(st: Storage, segs: Seq<&str>, u: Url)
    requires segs.len() == 1, below(*st.base_url, all_names(segs), u)
    ensures all_names(segs) == names(segs[0]@), whole(u.levels()) == spot(st, segs[0]@)
{
    let e = segs.drop_last();
    assert(all_names(e) =~= Seq::<Seq<char>>::empty());
    assert(all_names(e) + names(segs.last()@) =~= names(segs.last()@));
    lemma_named(segs); lemma_dotless(all_names(segs)); lemma_whole_appended(st.base_url.levels(), dotless(all_names(segs)));
}
//@fn crates/core/src/storage/mod.rs Storage::get_file_data
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(b) => clean(relative_path@) && self.object_store.content(spot(*self, relative_path@)) == Some(b@), Err(_) => barred(*self, relative_path@) }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn crates/core/src/storage/mod.rs Storage::get_file_data_from_absolute_path
@spec
    ensures match ret { Ok(b) => disk_parts(absolute_path@) matches Some(at) && self.object_store.content(at) == Some(b@), Err(_) => disk_parts(absolute_path@) matches Some(at) ==> self.object_store.down(at) }
//@end
//@fn crates/core/src/storage/mod.rs Storage::list_dirs_as_obj_paths
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(v) => clean(sub_text(subdir)) && dirs_at(*self, spot(*self, sub_text(subdir)), v@), Err(_) => barred(*self, sub_text(subdir)) }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
pub open spec fn dirs_at(st: Storage, at: Seq<Seq<char>>, v: Seq<ObjPath>) -> bool { let ds = st.object_store.tree(at).dirs; v.len() == ds.len() && forall|i: int| #![trigger v[i]] #![trigger ds[i]] 0 <= i < v.len() ==> v[i].parts() == at.push(ds[i].0) }
pub open spec fn dir_names(st: Storage, at: Seq<Seq<char>>, v: Seq<String>) -> bool { first_dirs(st.object_store.tree(at).dirs, v) && v.len() == st.object_store.tree(at).dirs.len() }
pub open spec fn first_dirs(ds: Seq<(Seq<char>, Tree)>, v: Seq<String>) -> bool { v.len() <= ds.len() && forall|i: int| #![trigger v[i]] #![trigger ds[i]] 0 <= i < v.len() ==> v[i]@ == ds[i].0 }
pub open spec fn file_names(st: Storage, at: Seq<Seq<char>>, v: Seq<FileMetadata>) -> bool { first_files(st.object_store.tree(at).files, v) && v.len() == st.object_store.tree(at).files.len() }
pub open spec fn first_files(fs: Seq<(Seq<char>, nat)>, v: Seq<FileMetadata>) -> bool { v.len() <= fs.len() && forall|i: int| #![trigger v[i]] #![trigger fs[i]] 0 <= i < v.len() ==> v[i].name@ == fs[i].0 && v[i].size == fs[i].1 }
//@fn crates/core/src/storage/mod.rs Storage::list_dirs
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(v) => clean(sub_text(subdir)) && dir_names(*self, spot(*self, sub_text(subdir)), v@), Err(_) => barred(*self, sub_text(subdir)) }
@loop 0 pre
    let ghost all = vx_it0@; let ghost mut n = 0int; let ghost at = spot(*self, sub_text(subdir)); let ghost ds = self.object_store.tree(at).dirs;
@loop 0
    invariant dirs_at(*self, at, all), ds == self.object_store.tree(at).dirs, 0 <= n <= all.len(), vx_it0@ == all.subrange(n, all.len() as int), dirs@.len() == n, first_dirs(ds, dirs@)
    ensures n == all.len(), dir_names(*self, at, dirs@)
    decreases vx_it0@.len()
@loop 0 start
    proof { n = n + 1; assert(all[n - 1].parts() == at.push(ds[n - 1].0)); }
//@end
//@fn crates/core/src/storage/mod.rs Storage::list_files
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(v) => clean(sub_text(subdir)) && file_names(*self, spot(*self, sub_text(subdir)), v@), Err(_) => barred(*self, sub_text(subdir)) }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@loop 0 pre
    let ghost all = vx_it0@; let ghost mut n = 0int; let ghost at = spot(*self, sub_text(subdir)); let ghost fs = self.object_store.tree(at).files;
@loop 0
    invariant all.len() == fs.len(), forall|i: int| #![trigger all[i]] #![trigger fs[i]] 0 <= i < fs.len() ==> all[i].location.parts() == at.push(fs[i].0) && all[i].size == fs[i].1, fs == self.object_store.tree(at).files, 0 <= n <= all.len(), vx_it0@ == all.subrange(n, all.len() as int), file_metadata@.len() == n, first_files(fs, file_metadata@)
    ensures n == all.len(), file_names(*self, at, file_metadata@)
    decreases vx_it0@.len()
@loop 0 start
    proof { broadcast use ax_into; n = n + 1; assert(all[n - 1].location.parts() == at.push(fs[n - 1].0)); }
//@end

// ---- leaf directories ---------------------------------------------------------------------------
/// PathBuf::push
pub open spec fn path_push(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 || (b.len() > 0 && b[0] == '/') { b } else if a.last() == '/' { a + b } else { a + seq!['/'] + b } }
#[verifier::external_body] pub struct VPathBuf { _p: () }
impl VPathBuf {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: VPathBuf) ensures r.text().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn from(s: &str) -> (r: VPathBuf) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn push<T: VxDisp>(&mut self, s: T) ensures final(self).text() == path_push(old(self).text(), s.disp()) { unimplemented!() }
    #[verifier::external_body] pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures r matches Some(s) && s@ == self.text() { unimplemented!() /* the path was built from strs */ }
}
pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() /* self.extend(v) */ } }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
/// the deepest directories of a tree: those without a subdirectory
pub open spec fn leaf_paths(t: Tree, at: Seq<char>) -> Seq<Seq<char>> decreases t, t.dirs.len() + 1 { if t.dirs.len() == 0 { seq![at] } else { leaf_upto(t, at, t.dirs.len() as int) } }
pub open spec fn leaf_upto(t: Tree, at: Seq<char>, n: int) -> Seq<Seq<char>> decreases t, n { if 0 < n <= t.dirs.len() { leaf_upto(t, at, n - 1) + leaf_paths(t.dirs[n - 1].1, path_push(at, t.dirs[n - 1].0)) } else { Seq::empty() } }
/// some directory cannot be listed
pub open spec fn trouble(st: Storage, t: Tree, at: Seq<char>) -> bool decreases t { barred(st, at) || exists|i: int| 0 <= i < t.dirs.len() && trouble(st, (#[trigger] t.dirs[i]).1, path_push(at, t.dirs[i].0)) }
pub proof fn lemma_split_mid(a: Seq<char>, b: Seq<char>, c: char) ensures split_char(a + seq![c] + b, c) == split_char(a, c) + split_char(b, c) decreases a.len()
{
    let s = a + seq![c] + b;
    if a.len() == 0 { assert(s.drop_first() =~= b); assert(split_char(s, c) =~= split_char(a, c) + split_char(b, c)); }
    else {
        lemma_split_mid(a.drop_first(), b, c);
        lemma_split_len(a.drop_first(), c); lemma_split_len(b, c);
        assert(s.drop_first() =~= a.drop_first() + seq![c] + b);
        assert(s[0] == a[0]);
        assert(split_char(s, c) =~= split_char(a, c) + split_char(b, c));
    }
}
/// going down one directory
pub proof fn lemma_child(st: Storage, at: Seq<char>, name: Seq<char>)
    requires entry_name(name)
    ensures spot(st, path_push(at, name)) == spot(st, at).push(name)
{
    let p = |x: Seq<char>| x.len() > 0;
    lemma_split_none(name, '/');
    let one = seq![name];
    lemma_keeps(one);
    assert(name[0] != '/') by { if name[0] == '/' { assert(name.contains('/')); } }
    let none = Seq::<char>::empty();
    lemma_split_none(none, '/');
    assert(whole(seq![none]) =~= Seq::<Seq<char>>::empty()) by { reveal(Seq::filter); assert(seq![none].drop_last() =~= Seq::<Seq<char>>::empty()); assert(Seq::<Seq<char>>::empty().filter(p) =~= Seq::<Seq<char>>::empty()); }
    assert(names(path_push(at, name)) == names(at) + one) by {
        if at.len() == 0 { assert(at =~= none); assert(names(at) + one =~= one); }
        else if at.last() == '/' {
            let t = at.drop_last();
            assert(at =~= t + seq!['/'] + none); assert(at + name =~= t + seq!['/'] + name);
            lemma_split_mid(t, none, '/'); lemma_split_mid(t, name, '/');
            lemma_filter_cat(split_char(t, '/'), seq![none], p); lemma_filter_cat(split_char(t, '/'), one, p);
            assert(names(at) =~= names(t));
        } else { lemma_split_mid(at, name, '/'); lemma_filter_cat(split_char(at, '/'), one, p); }
    }
    lemma_filter_cat(names(at), one, |x: Seq<char>| no_dot(x));
    assert(dotless(one) =~= one) by { reveal(Seq::filter); assert(one.drop_last() =~= Seq::<Seq<char>>::empty()); assert(dotless(one.drop_last()) =~= Seq::<Seq<char>>::empty()); assert(no_dot(one.last())); }
    assert(spot(st, path_push(at, name)) =~= spot(st, at).push(name));
}
pub open spec fn tree_at(st: Storage, rel: Seq<char>) -> Tree { st.object_store.tree(spot(st, rel)) }
//@fn crates/core/src/storage/mod.rs get_leaf_dirs
@rule method extend vx_extend
@spec
    requires usable(*storage.base_url)
    ensures match ret { Ok(v) => views(v@) == leaf_paths(tree_at(*storage, sub_text(subdir)), sub_text(subdir)), Err(_) => trouble(*storage, tree_at(*storage, sub_text(subdir)), sub_text(subdir)) }
    decreases tree_at(*storage, sub_text(subdir))
@start
    let ghost at = sub_text(subdir); let ghost t = tree_at(*storage, at); proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
    proof { assert forall|i: int| 0 <= i < t.dirs.len() implies tree_at(*storage, path_push(at, #[trigger] t.dirs[i].0)) == t.dirs[i].1 && entry_name(t.dirs[i].0) by { ax_tree(*storage.object_store, spot(*storage, at), i); lemma_child(*storage, at, t.dirs[i].0); }
        assert forall|v: Seq<String>, w: Seq<String>| #[trigger] views(v + w) == views(v) + views(w) by { assert(views(v + w) =~= views(v) + views(w)); }
        assert forall|v: Seq<String>, x: String| views(#[trigger] v.push(x)) == views(v).push(x@) by { assert(views(v.push(x)) =~= views(v).push(x@)); } assert(views(Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
@loop 0 pre
    let ghost all = vx_it0@; let ghost mut n = 0int;
@loop 0
    invariant usable(*storage.base_url), at == sub_text(subdir), t == tree_at(*storage, at), 0 <= n <= all.len(), vx_it0@ == all.subrange(n, all.len() as int), all.len() == t.dirs.len(), first_dirs(t.dirs, all), views(leaf_dirs@) == leaf_upto(t, at, n),
        forall|i: int| 0 <= i < t.dirs.len() ==> tree_at(*storage, path_push(at, #[trigger] t.dirs[i].0)) == t.dirs[i].1 && entry_name(t.dirs[i].0),
        forall|v: Seq<String>, w: Seq<String>| #[trigger] views(v + w) == views(v) + views(w)
    ensures n == all.len(), views(leaf_dirs@) == leaf_upto(t, at, n)
    decreases vx_it0@.len()
@loop 0 start
    proof { n = n + 1; assert(all[n - 1]@ == t.dirs[n - 1].0); assert(entry_name(t.dirs[n - 1].0)); assert(path_push(Seq::<char>::empty(), at) == at); }
//@end
// ---- readers over a file's bytes ----------------------------------------------------------------
//@rule path Cursor VCursor
//@rule path BufReader VBufReader
#[verifier::external_body] pub struct VIoErr { _p: () }
impl vstd::std_specs::convert::FromSpecImpl<ObjStoreErr> for VIoErr { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(e: ObjStoreErr) -> VIoErr; }
impl core::convert::From<ObjStoreErr> for VIoErr { #[verifier::external_body] fn from(e: ObjStoreErr) -> VIoErr { unimplemented!() } }
#[verifier::external_body] pub fn vx_reader_error(e: VIoErr) -> (r: StorageError) { unimplemented!() }
#[verifier::external_body] pub struct VCursor { _p: () }
impl VCursor { pub uninterp spec fn data(&self) -> Seq<u8>; pub uninterp spec fn pos(&self) -> nat; #[verifier::external_body] pub fn new(b: VBytes) -> (r: VCursor) ensures r.data() == b@, r.pos() == 0 { unimplemented!() } }
#[verifier::external_body] pub struct VBufReader { _p: () }
#[derive(Clone, Copy)] pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// where a seek leads, if anywhere
pub open spec fn sought(pos: nat, len: nat, p: SeekFrom) -> int { match p { SeekFrom::Start(n) => n as int, SeekFrom::End(d) => len + d, SeekFrom::Current(d) => pos + d } }
/// n bytes were read from position pos of data into buf
pub open spec fn took(data: Seq<u8>, pos: nat, before: Seq<u8>, after: Seq<u8>, n: int) -> bool {
    after.len() == before.len() && 0 <= n <= before.len() && (n > 0 ==> pos + n <= data.len()) && (n == 0 ==> before.len() == 0 || pos >= data.len())
        && (forall|i: int| 0 <= i < n ==> #[trigger] after[i] == data[pos + i]) && (forall|i: int| n <= i < before.len() ==> #[trigger] after[i] == before[i])
}
impl VBufReader {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn with_capacity(n: usize, c: VCursor) -> (r: VBufReader) ensures r.data() == c.data(), r.pos() == c.pos() { unimplemented!() }
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: VIoResult<usize>) ensures final(self).data() == old(self).data(), r matches Ok(n) && took(old(self).data(), old(self).pos(), old(buf)@, final(buf)@, n as int) && final(self).pos() == old(self).pos() + n { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, p: SeekFrom) -> (r: VIoResult<u64>) ensures final(self).data() == old(self).data(), match r { Ok(n) => n == sought(old(self).pos(), old(self).data().len(), p) && final(self).pos() == n, Err(_) => sought(old(self).pos(), old(self).data().len(), p) < 0 || sought(old(self).pos(), old(self).data().len(), p) > u64::MAX } { unimplemented!() }
}
impl VBytes { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
pub type VIoResult<T> = core::result::Result<T, VIoErr>;
pub struct StorageReader { pub reader: VBufReader }
//@fn crates/core/src/storage/reader.rs StorageReader::new
@header impl StorageReader
@rule path Result VIoResult
@rule path ObjectMeta VObjectMeta
@spec
    ensures match ret { Ok(x) => object_store.content(object_meta.location.parts()) == Some(x.reader.data()) && x.reader.pos() == 0, Err(_) => object_store.down(object_meta.location.parts()) }
//@end
//@fn crates/core/src/storage/reader.rs Read for StorageReader::read
@header impl StorageReader
@rule path Result VIoResult
@spec
    ensures final(self).reader.data() == old(self).reader.data(), ret matches Ok(n) && took(old(self).reader.data(), old(self).reader.pos(), old(buf)@, final(buf)@, n as int) && final(self).reader.pos() == old(self).reader.pos() + n
//@end
//@fn crates/core/src/storage/reader.rs Seek for StorageReader::seek
@header impl StorageReader
@rule path Result VIoResult
@spec
    ensures final(self).reader.data() == old(self).reader.data(), match ret { Ok(n) => n == sought(old(self).reader.pos(), old(self).reader.data().len(), pos) && final(self).reader.pos() == n, Err(_) => sought(old(self).reader.pos(), old(self).reader.data().len(), pos) < 0 || sought(old(self).reader.pos(), old(self).reader.data().len(), pos) > u64::MAX }
//@end
//@fn crates/core/src/storage/mod.rs Storage::get_storage_reader
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(x) => clean(relative_path@) && self.object_store.content(spot(*self, relative_path@)) == Some(x.reader.data()) && x.reader.pos() == 0, Err(_) => barred(*self, relative_path@) }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end

// ---- Parquet files, by assumed contract ---------------------------------------------------------
//@rule path ParquetObjectReader VParquetReader
//@rule path ParquetRecordBatchStreamBuilder VParquetBuilder
//@rule path ParquetMetaData VFooter
//@rule path arrow::datatypes::Schema VSchema
//@rule path parquet_to_arrow_schema vx_parquet_to_arrow_schema
//@rule path concat_batches vx_concat_batches
/// the footer of a Parquet file; its record batches; a schema
#[verifier::external_body] pub struct VFooter { _p: () }
#[verifier::external_body] pub struct VSchema { _p: () }
#[verifier::external_body] pub struct RecordBatch { _p: () }
#[verifier::external_body] pub struct VDescr { _p: () }
impl Clone for VFooter { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for VSchema { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct VRow { _p: () }
impl RecordBatch {
    pub uninterp spec fn rows(&self) -> Seq<VRow>;
    pub uninterp spec fn schema(&self) -> VSchema;
    #[verifier::external_body] pub fn new_empty(s: Arc<VSchema>) -> (r: RecordBatch) ensures r.rows().len() == 0, r.schema() == *s { unimplemented!() }
}
/// what the bytes of a Parquet file say: footer, arrow schema, rows batch by batch
pub uninterp spec fn footer_of(c: Seq<u8>) -> Option<VFooter>;
pub uninterp spec fn schema_of(c: Seq<u8>) -> VSchema;
pub uninterp spec fn batches_of(c: Seq<u8>) -> Seq<RecordBatch>;
/// a column or page of a Parquet file cannot be decoded
pub uninterp spec fn garbled(c: Seq<u8>) -> bool;
pub open spec fn cat_rows(b: Seq<RecordBatch>) -> Seq<VRow> decreases b.len() { if b.len() == 0 { Seq::empty() } else { cat_rows(b.drop_last()) + b.last().rows() } }
/// all rows of a Parquet file
pub open spec fn rows_of(c: Seq<u8>) -> Seq<VRow> { cat_rows(batches_of(c)) }
pub uninterp spec fn arrow_of(d: VDescr) -> Option<VSchema>;
pub broadcast axiom fn ax_batch_schemas(c: Seq<u8>, i: int) requires 0 <= i < batches_of(c).len() ensures (#[trigger] batches_of(c)[i]).schema() == schema_of(c);
#[verifier::external_body] pub struct VFileMeta { _p: () }
#[verifier::external_body] pub struct VKeyValues { _p: () }
#[verifier::external_body] pub struct VRowGroup { _p: () }
impl VFooter {
    pub uninterp spec fn row_count(&self) -> i64;
    pub uninterp spec fn descr(&self) -> VDescr;
    pub uninterp spec fn groups(&self) -> Seq<VRowGroup>;
    #[verifier::external_body] pub fn file_metadata<'a>(&'a self) -> (r: &'a VFileMeta) ensures r.row_count() == self.row_count(), r.descr() == self.descr() { unimplemented!() }
    #[verifier::external_body] pub fn row_groups<'a>(&'a self) -> (r: &'a [VRowGroup]) ensures r@ == self.groups() { unimplemented!() }
}
impl VFileMeta {
    pub uninterp spec fn row_count(&self) -> i64;
    pub uninterp spec fn descr(&self) -> VDescr;
    #[verifier::external_body] pub fn num_rows(&self) -> (r: i64) ensures r == self.row_count() { unimplemented!() }
    #[verifier::external_body] pub fn schema_descr<'a>(&'a self) -> (r: &'a VDescr) ensures *r == self.descr() { unimplemented!() }
}
impl VRowGroup { pub uninterp spec fn bytes(&self) -> i64; #[verifier::external_body] pub fn total_byte_size(&self) -> (r: i64) ensures r == self.bytes() { unimplemented!() } }
/// numbers added up, without overflow
pub open spec fn total(s: Seq<i64>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
pub open spec fn sizes(g: Seq<VRowGroup>) -> Seq<i64> { g.map_values(|x: VRowGroup| x.bytes()) }
impl VIter<i64> { #[verifier::external_body] pub fn sum<S>(self) -> (r: i64) ensures i64::MIN <= total(self@) <= i64::MAX ==> r == total(self@) { unimplemented!() /* self.sum() */ } }
#[verifier::external_body] pub struct VParquetReader { _p: () }
#[verifier::external_body] pub struct VParquetBuilder { _p: () }
#[verifier::external_body] pub struct VParquetStream { _p: () }
impl VParquetReader {
    pub uninterp spec fn store(&self) -> VObjectStore;
    pub uninterp spec fn at(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn new(s: Arc<VObjectStore>, m: VObjectMeta) -> (r: VParquetReader) ensures r.store() == *s, r.at() == m.location.parts() { unimplemented!() }
}
impl VParquetBuilder {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn down(&self) -> bool;
    #[verifier::external_body] pub fn new(p: VParquetReader) -> (r: core::result::Result<VParquetBuilder, ParquetErr>)
        ensures match r { Ok(b) => p.store().content(p.at()) == Some(b.bytes()) && footer_of(b.bytes()) is Some && b.down() == p.store().down(p.at()), Err(_) => p.store().down(p.at()) || (p.store().content(p.at()) matches Some(c) && footer_of(c) is None) } { unimplemented!() }
    #[verifier::external_body] pub fn metadata<'a>(&'a self) -> (r: &'a Arc<VFooter>) ensures footer_of(self.bytes()) == Some(**r) { unimplemented!() }
    #[verifier::external_body] pub fn schema<'a>(&'a self) -> (r: &'a Arc<VSchema>) ensures **r == schema_of(self.bytes()) { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: core::result::Result<VParquetStream, ParquetErr>) ensures match r { Ok(s) => s.bytes() == self.bytes() && s.read() == 0 && !s.ended() && s.down() == self.down(), Err(_) => garbled(self.bytes()) } { unimplemented!() }
}
/// a stream of record batches: it ends after the last one, and after a failure
impl VParquetStream {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn read(&self) -> nat;
    pub uninterp spec fn ended(&self) -> bool;
    pub uninterp spec fn down(&self) -> bool;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<core::result::Result<RecordBatch, ParquetErr>>)
        ensures final(self).bytes() == old(self).bytes(), final(self).down() == old(self).down(), match r {
            Some(Ok(b)) => !old(self).ended() && !final(self).ended() && old(self).read() < batches_of(old(self).bytes()).len() && b == batches_of(old(self).bytes())[old(self).read() as int] && final(self).read() == old(self).read() + 1,
            Some(Err(_)) => final(self).ended() && (old(self).down() || garbled(old(self).bytes())),
            None => old(self).ended() || old(self).read() == batches_of(old(self).bytes()).len() } { unimplemented!() }
}
#[verifier::external_body] pub fn vx_concat_batches(s: &Arc<VSchema>, b: &Vec<RecordBatch>) -> (r: core::result::Result<RecordBatch, ArrowErr>)
    ensures match r { Ok(x) => x.rows() == cat_rows(b@) && x.schema() == **s, Err(_) => exists|i: int| 0 <= i < b@.len() && (#[trigger] b@[i]).schema() != **s } { unimplemented!() }
#[verifier::external_body] pub fn vx_parquet_to_arrow_schema(d: &VDescr, kv: Option<VKeyValues>) -> (r: core::result::Result<VSchema, ArrowErr>) ensures match r { Ok(x) => arrow_of(*d) == Some(x), Err(_) => arrow_of(*d) is None } { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<ParquetErr> for StorageError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ParquetErr) -> StorageError { StorageError::ParquetError(e) } }
impl core::convert::From<ParquetErr> for StorageError { fn from(e: ParquetErr) -> StorageError { StorageError::ParquetError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ArrowErr> for StorageError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ArrowErr) -> StorageError { StorageError::ArrowError(e) } }
impl core::convert::From<ArrowErr> for StorageError { fn from(e: ArrowErr) -> StorageError { StorageError::ArrowError(e) } }
/// the file at a relative path
pub open spec fn file_at(st: Storage, rel: Seq<char>) -> Option<Seq<u8>> { st.object_store.content(spot(st, rel)) }
/// there is no sound Parquet file there
pub open spec fn no_parquet(st: Storage, rel: Seq<char>) -> bool { file_at(st, rel) matches Some(c) ==> footer_of(c) is None || garbled(c) }
/// everything known of a file's content
pub open spec fn told(m: FileMetadata, at: Seq<Seq<char>>, c: Seq<u8>) -> bool {
    footer_of(c) matches Some(f) && at.len() > 0 && m.name@ == at.last() && m.size == c.len() && m.num_records == f.row_count() && m.fully_populated
        && (i64::MIN <= total(sizes(f.groups())) <= i64::MAX ==> m.byte_size == total(sizes(f.groups())))
}
//@fn crates/core/src/storage/mod.rs Storage::get_file_metadata
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(m) => clean(relative_path@) && (file_at(*self, relative_path@) matches Some(c) && told(m, spot(*self, relative_path@), c)), Err(_) => barred(*self, relative_path@) || no_parquet(*self, relative_path@) || spot(*self, relative_path@).len() == 0 }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
    proof { assert forall|g: Seq<VRowGroup>, v: Seq<i64>| v.len() == g.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == g[i].bytes()) implies #[trigger] total(v) == #[trigger] total(sizes(g)) by { assert(v =~= sizes(g)); } }
@closure 1
    |$1: &VRowGroup| -> (r: i64) ensures r == $1.bytes()
//@end
//@prop C18 C22
//@fn crates/core/src/storage/mod.rs Storage::get_parquet_file_metadata
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(f) => clean(relative_path@) && (file_at(*self, relative_path@) matches Some(c) && footer_of(c) == Some(f)), Err(_) => barred(*self, relative_path@) || no_parquet(*self, relative_path@) }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn crates/core/src/storage/mod.rs Storage::get_parquet_file_schema
@spec
    requires usable(*self.base_url)
    ensures match ret {
        Ok(x) => clean(relative_path@) && (file_at(*self, relative_path@) matches Some(c) && (footer_of(c) matches Some(f) && arrow_of(f.descr()) == Some(x))),
        Err(_) => barred(*self, relative_path@) || no_parquet(*self, relative_path@) || (file_at(*self, relative_path@) matches Some(c) && (footer_of(c) matches Some(f) && arrow_of(f.descr()) is None)) }
//@end
//@prop C18 C12
//@fn crates/core/src/storage/mod.rs Storage::get_parquet_file_data
@spec
    requires usable(*self.base_url)
    ensures match ret { Ok(b) => clean(relative_path@) && (file_at(*self, relative_path@) matches Some(c) && b.rows() == rows_of(c) && b.schema() == schema_of(c)), Err(_) => barred(*self, relative_path@) || no_parquet(*self, relative_path@) }
@start
    proof { assert forall|u: Url, segs: Seq<&str>| #![trigger below(*self.base_url, all_names(segs), u)] segs.len() == 1 && below(*self.base_url, all_names(segs), u) implies all_names(segs) == names(segs[0]@) && whole(u.levels()) == spot(*self, segs[0]@) by { lemma_spot(*self, segs, u); } assert forall|segs: Seq<&str>| segs.len() == 1 implies #[trigger] all_names(segs) == names(segs[0]@) by { lemma_one(segs); } reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
    proof { broadcast use ax_batch_schemas; }
@loop 0 pre
    let ghost c = stream.bytes(); let ghost mut n = 0int;
@loop 0
    invariant_except_break stream.read() == n, !stream.ended()
    invariant 0 <= n <= batches_of(c).len(), stream.bytes() == c, batches@ == batches_of(c).subrange(0, n), file_at(*self, relative_path@) == Some(c), clean(relative_path@), stream.down() == self.object_store.down(spot(*self, relative_path@)),
    ensures batches@ == batches_of(c)
    decreases batches_of(c).len() - stream.read()
@loop 0 start
    proof { n = n + 1; }
//@end
}
