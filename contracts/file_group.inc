//@include names.inc
//@include collections.rs
verus! {
//@rule path BTreeMap VMap
//@rule path BTreeSet VSet
//@rule path HashMap VMap
//@rule path IntoIterator VxIntoIterator
//@rule method iter vx_iter
//@rule eq_ops
//@type crates/core/src/file_group/file_slice.rs FileSlice clone
//@type crates/core/src/file_group/mod.rs FileGroup clone
// the operators of these types are the PartialEq/Ord functions verified below and in names.inc
impl VxOrd for LogFile { open spec fn order(self, o: LogFile) -> Ordering { log_order(self, o) } open spec fn total() -> bool { true } }
pub open spec fn base_name_of(b: BaseFile) -> Seq<char> { base_name(b.file_id@, b.write_token@, b.commit_timestamp@, b.extension@) }
impl VxEq<BaseFile> for BaseFile { open spec fn same(&self, o: &BaseFile) -> bool { base_name_of(*self) == base_name_of(*o) } }
impl VxEq<FileSlice> for FileSlice { open spec fn same(&self, o: &FileSlice) -> bool { base_name_of(self.base_file) == base_name_of(o.base_file) && self.partition_path@ == o.partition_path@ } }
impl VxEq<FileGroup> for FileGroup { open spec fn same(&self, o: &FileGroup) -> bool { self.file_id@ == o.file_id@ && self.partition_path@ == o.partition_path@ } }

//@prop C04 C05 C06 C21
// ---- slices ----------------------------------------------------------------------------------
//@fn crates/core/src/file_group/file_slice.rs PartialEq for FileSlice::eq
@spec
    ensures ret == self.same(other)
//@end
//@fn crates/core/src/file_group/file_slice.rs FileSlice::new
@spec
    ensures ret.base_file == base_file, ret.partition_path == partition_path, ret.log_files@ == Set::<LogFile>::empty()
//@end
//@fn crates/core/src/file_group/file_slice.rs FileSlice::has_log_file
@spec
    ensures ret == (self.log_files@ != Set::<LogFile>::empty())
//@end
//@fn crates/core/src/file_group/file_slice.rs FileSlice::file_id
@spec
    ensures ret@ == self.base_file.file_id@
//@end
//@fn crates/core/src/file_group/file_slice.rs FileSlice::creation_instant_time
@spec
    ensures ret@ == self.base_file.commit_timestamp@
//@end
/// b has every log file of a and of c, by name, and no other
pub open spec fn has_name(s: Set<LogFile>, l: LogFile) -> bool { exists|e: LogFile| #[trigger] s.contains(e) && log_order(e, l) == Ordering::Equal }
pub open spec fn logs_union(a: Set<LogFile>, c: Set<LogFile>, b: Set<LogFile>) -> bool {
    &&& forall|l: LogFile| #[trigger] a.contains(l) ==> b.contains(l)
    &&& forall|l: LogFile| #[trigger] c.contains(l) ==> has_name(b, l)
    &&& forall|l: LogFile| #[trigger] b.contains(l) ==> a.contains(l) || c.contains(l)
}
pub proof fn lemma_add_all(a: Set<LogFile>, xs: Seq<LogFile>)
    ensures forall|l: LogFile| #[trigger] a.contains(l) ==> set_add_all(a, xs).contains(l),
        forall|i: int| 0 <= i < xs.len() ==> has_name(set_add_all(a, xs), #[trigger] xs[i]),
        forall|l: LogFile| #[trigger] set_add_all(a, xs).contains(l) ==> a.contains(l) || xs.contains(l),
    decreases xs.len()
{
    if xs.len() > 0 {
        let p = xs.drop_last(); let s = set_add_all(a, p); let x = xs.last();
        lemma_add_all(a, p);
        order_laws(x, x, x);
        assert(has_name(set_add(s, x), x)) by { if !(exists|e: LogFile| #[trigger] s.contains(e) && e.order(x) == Ordering::Equal) { assert(s.insert(x).contains(x)); assert(log_order(x, x) == Ordering::Equal); } }
        assert forall|i: int| 0 <= i < xs.len() implies has_name(set_add_all(a, xs), #[trigger] xs[i]) by { if i < p.len() { assert(p[i] == xs[i]); let e = choose|e: LogFile| #[trigger] s.contains(e) && log_order(e, p[i]) == Ordering::Equal; assert(set_add(s, x).contains(e)); } }
        assert forall|l: LogFile| #[trigger] set_add_all(a, xs).contains(l) implies a.contains(l) || xs.contains(l) by { if s.contains(l) { if p.contains(l) { let i = choose|i: int| 0 <= i < p.len() && p[i] == l; assert(xs[i] == l); } } else { assert(l == x); assert(xs[xs.len() - 1] == l); } }
    }
}
pub open spec fn covers(c: Set<LogFile>, xs: Seq<LogFile>) -> bool { (forall|i: int| 0 <= i < xs.len() ==> c.contains(#[trigger] xs[i])) && (forall|l: LogFile| #[trigger] c.contains(l) ==> exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == l) }
//@fn crates/core/src/file_group/file_slice.rs FileSlice::merge
@rule opaque_fmt
@spec
    ensures match ret {
        Ok(_) => (*old(self)).same(other) && final(self).base_file == old(self).base_file && final(self).partition_path == old(self).partition_path && logs_union(old(self).log_files@, other.log_files@, final(self).log_files@),
        Err(_) => !(*old(self)).same(other) && *final(self) == *old(self) }
@start
    proof { assert forall|xs: Seq<LogFile>| #![trigger set_add_all(self.log_files@, xs)] covers(other.log_files@, xs) implies logs_union(self.log_files@, other.log_files@, set_add_all(self.log_files@, xs)) by { lemma_add_all(self.log_files@, xs); } }
//@end

//@prop C04 C05 C06 C21
// ---- file groups -----------------------------------------------------------------------------
//@fn crates/core/src/file_group/mod.rs PartialEq for FileGroup::eq
@spec
    ensures ret == self.same(other)
//@end
//@fn crates/core/src/file_group/mod.rs FileGroup::new
@spec
    ensures ret.file_id == file_id, ret.partition_path == partition_path, ret.file_slices@ == Map::<Seq<char>, FileSlice>::empty()
//@end
pub open spec fn same_group(a: FileGroup, b: FileGroup) -> bool { a.file_id == b.file_id && a.partition_path == b.partition_path }
pub open spec fn fresh_slice(g: FileGroup, b: BaseFile, s: FileSlice) -> bool { s.base_file == b && s.partition_path@ == g.partition_path@ && s.log_files@ == Set::<LogFile>::empty() }
//@fn crates/core/src/file_group/mod.rs FileGroup::add_base_file
@rule opaque_fmt
@spec
    ensures same_group(*old(self), *final(self)),
        match ret {
            Ok(_) => !old(self).file_slices@.dom().contains(base_file.commit_timestamp@)
                && final(self).file_slices@.dom() == old(self).file_slices@.dom().insert(base_file.commit_timestamp@)
                && fresh_slice(*old(self), base_file, final(self).file_slices@[base_file.commit_timestamp@])
                && (forall|k: Seq<char>| #[trigger] old(self).file_slices@.dom().contains(k) ==> final(self).file_slices@[k] == old(self).file_slices@[k]),
            Err(_) => old(self).file_slices@.dom().contains(base_file.commit_timestamp@) && *final(self) == *old(self) }
//@end

//@fn crates/core/src/file_group/mod.rs FileGroup::add_base_file_from_name
@spec
    ensures same_group(*old(self), *final(self)),
        match ret {
            Ok(_) => (exists|b: BaseFile| #[trigger] base_of(file_name@, b) && b.file_metadata is None && base_added(*old(self), b, *final(self))),
            Err(_) => *final(self) == *old(self) && (no_base(file_name@) || exists|b: BaseFile| #[trigger] base_of(file_name@, b) && old(self).file_slices@.dom().contains(b.commit_timestamp@)) }
//@end
pub open spec fn base_added(g: FileGroup, b: BaseFile, h: FileGroup) -> bool {
    &&& !g.file_slices@.dom().contains(b.commit_timestamp@)
    &&& h.file_slices@.dom() == g.file_slices@.dom().insert(b.commit_timestamp@)
    &&& fresh_slice(g, b, h.file_slices@[b.commit_timestamp@])
    &&& forall|k: Seq<char>| #[trigger] g.file_slices@.dom().contains(k) ==> h.file_slices@[k] == g.file_slices@[k]
}
//@fn crates/core/src/file_group/mod.rs FileGroup::new_with_base_file_name
@spec
    ensures match ret {
        Ok(g) => g.file_id == id && g.partition_path == partition_path && one_base(file_name@, g),
        Err(_) => no_base(file_name@) }
//@end
/// exactly one slice: the base file that the name spells, with no log file
pub open spec fn one_base(name: Seq<char>, g: FileGroup) -> bool {
    exists|b: BaseFile| #[trigger] base_of(name, b) && b.file_metadata is None && g.file_slices@.dom() =~= Set::<Seq<char>>::empty().insert(b.commit_timestamp@) && fresh_slice(g, b, g.file_slices@[b.commit_timestamp@])
}
// A set of groups looks a group up by its hash first: what is fed to the hasher must depend only
// on what `eq` compares. (A Hasher is taken to be a function of what was fed to it.)
pub trait VxHasher { spec fn fed(&self) -> Seq<Seq<char>>; }
pub trait VxHash { spec fn text(&self) -> Seq<char>; fn vx_hash<H: VxHasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed().push(self.text()); }
impl VxHash for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() } }
impl VxHash for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn key_fed(id: Seq<char>, path: Seq<char>, d: Seq<Seq<char>>) -> bool { d =~= seq![] || d =~= seq![id] || d =~= seq![path] || d =~= seq![id, path] || d =~= seq![path, id] }
//@fn crates/core/src/file_group/mod.rs Hash for FileGroup::hash
@header impl FileGroup
@rule path Hasher VxHasher
@rule method hash vx_hash
@spec
    ensures exists|d: Seq<Seq<char>>| #[trigger] key_fed(self.file_id@, self.partition_path@, d) && final(state).fed() == old(state).fed() + d
@start
    proof {
        let (a, b, f) = (self.file_id@, self.partition_path@, old(state).fed());
        assert(key_fed(a, b, seq![a, b]) && key_fed(a, b, seq![b, a]) && key_fed(a, b, seq![a]) && key_fed(a, b, seq![b]) && key_fed(a, b, seq![]));
        assert(f + seq![a, b] =~= f.push(a).push(b)); assert(f + seq![b, a] =~= f.push(b).push(a)); assert(f + seq![a] =~= f.push(a)); assert(f + seq![b] =~= f.push(b)); assert(f + seq![] =~= f);
    }
//@end
/// the first n base files, of distinct commits, have become slices
pub open spec fn bases_added(g: FileGroup, bs: Seq<BaseFile>, n: int, h: FileGroup) -> bool {
    &&& same_group(g, h)
    &&& forall|i: int| 0 <= i < n ==> !g.file_slices@.dom().contains((#[trigger] bs[i]).commit_timestamp@) && h.file_slices@.dom().contains(bs[i].commit_timestamp@) && fresh_slice(g, bs[i], h.file_slices@[bs[i].commit_timestamp@])
    &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] bs[i]).commit_timestamp@ != (#[trigger] bs[j]).commit_timestamp@
    &&& forall|k: Seq<char>| #[trigger] g.file_slices@.dom().contains(k) ==> h.file_slices@.dom().contains(k) && h.file_slices@[k] == g.file_slices@[k]
    &&& forall|k: Seq<char>| #[trigger] h.file_slices@.dom().contains(k) ==> g.file_slices@.dom().contains(k) || exists|i: int| 0 <= i < n && (#[trigger] bs[i]).commit_timestamp@ == k
}
//@fn crates/core/src/file_group/mod.rs FileGroup::add_base_files
@spec
    ensures same_group(*old(self), *final(self)),
        ret is Ok ==> bases_added(*old(self), base_files.items(), base_files.items().len() as int, *final(self)),
        // rejected exactly when a commit comes twice
        ret is Err ==> exists|i: int| 0 <= i < base_files.items().len() && (old(self).file_slices@.dom().contains((#[trigger] base_files.items()[i]).commit_timestamp@) || exists|j: int| 0 <= j < i && (#[trigger] base_files.items()[j]).commit_timestamp@ == base_files.items()[i].commit_timestamp@),
@start
    let ghost bs = base_files.items(); let ghost mut n: int = 0;
@loop 0
    invariant 0 <= n <= bs.len(), vx_it0@ == bs.subrange(n, bs.len() as int), bases_added(*old(self), bs, n, *self), bs == base_files.items()
    ensures n == bs.len(), bases_added(*old(self), bs, n, *self)
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(base_file == bs[n]); n = n + 1; assert(bs.subrange(n - 1, bs.len() as int).drop_first() =~= bs.subrange(n, bs.len() as int)); }
//@end
pub open spec fn log_added(g: FileGroup, l: LogFile, h: FileGroup) -> bool {
    let k = l.base_commit_timestamp@;
    &&& g.file_slices@.dom().contains(k)
    &&& h.file_slices@.dom() =~= g.file_slices@.dom()
    &&& h.file_slices@[k].base_file == g.file_slices@[k].base_file && h.file_slices@[k].partition_path == g.file_slices@[k].partition_path
    &&& h.file_slices@[k].log_files@ == set_add(g.file_slices@[k].log_files@, l)
    &&& forall|j: Seq<char>| #[trigger] g.file_slices@.dom().contains(j) && j != k ==> h.file_slices@[j] == g.file_slices@[j]
}
//@fn crates/core/src/file_group/mod.rs FileGroup::add_log_file
@rule opaque_fmt
@spec
    ensures same_group(*old(self), *final(self)),
        match ret {
            Ok(_) => log_added(*old(self), log_file, *final(self)),
            Err(_) => !old(self).file_slices@.dom().contains(log_file.base_commit_timestamp@) && final(self).file_slices@ == old(self).file_slices@ }
//@end
//@fn crates/core/src/file_group/mod.rs FileGroup::add_log_file_from_name
@spec
    ensures same_group(*old(self), *final(self)),
        match ret {
            Ok(_) => (exists|l: LogFile| #[trigger] log_of(file_name@, l) && l.file_metadata is None && log_added(*old(self), l, *final(self))),
            Err(_) => final(self).file_slices@ == old(self).file_slices@ && (no_log(file_name@) || exists|l: LogFile| #[trigger] log_of(file_name@, l) && !old(self).file_slices@.dom().contains(l.base_commit_timestamp@)) }
//@end
/// the first n log files are in the slices their names point at; nothing else changed
pub open spec fn logs_added(g: FileGroup, ls: Seq<LogFile>, n: int, h: FileGroup) -> bool {
    &&& same_group(g, h)
    &&& h.file_slices@.dom() == g.file_slices@.dom()
    &&& forall|k: Seq<char>| #[trigger] g.file_slices@.dom().contains(k) ==> h.file_slices@[k].base_file == g.file_slices@[k].base_file && h.file_slices@[k].partition_path == g.file_slices@[k].partition_path
        && (forall|l: LogFile| #[trigger] g.file_slices@[k].log_files@.contains(l) ==> h.file_slices@[k].log_files@.contains(l))
        && (forall|l: LogFile| #[trigger] h.file_slices@[k].log_files@.contains(l) ==> g.file_slices@[k].log_files@.contains(l) || (l.base_commit_timestamp@ == k && exists|i: int| 0 <= i < n && #[trigger] ls[i] == l))
    &&& forall|i: int| 0 <= i < n ==> g.file_slices@.dom().contains((#[trigger] ls[i]).base_commit_timestamp@) && has_name(h.file_slices@[ls[i].base_commit_timestamp@].log_files@, ls[i])
}
pub proof fn lemma_logs_step(g: FileGroup, ls: Seq<LogFile>, n: int, h: FileGroup, h2: FileGroup)
    requires 0 <= n < ls.len(), logs_added(g, ls, n, h), same_group(h, h2), log_added(h, ls[n], h2)
    ensures logs_added(g, ls, n + 1, h2)
{
    let x = ls[n]; let kx = x.base_commit_timestamp@;
    order_laws(x, x, x);
    let s = h.file_slices@[kx].log_files@;
    assert(has_name(set_add(s, x), x)) by { if !(exists|e: LogFile| #[trigger] s.contains(e) && e.order(x) == Ordering::Equal) { assert(s.insert(x).contains(x)); } }
    assert forall|i: int| 0 <= i < n + 1 implies g.file_slices@.dom().contains((#[trigger] ls[i]).base_commit_timestamp@) && has_name(h2.file_slices@[ls[i].base_commit_timestamp@].log_files@, ls[i]) by {
        if i < n { let k = ls[i].base_commit_timestamp@; let e = choose|e: LogFile| #[trigger] h.file_slices@[k].log_files@.contains(e) && log_order(e, ls[i]) == Ordering::Equal; assert(h2.file_slices@[k].log_files@.contains(e)); }
    }
}
//@fn crates/core/src/file_group/mod.rs FileGroup::add_log_files
@spec
    ensures same_group(*old(self), *final(self)),
        ret is Ok ==> logs_added(*old(self), log_files.items(), log_files.items().len() as int, *final(self)),
        ret is Err ==> exists|i: int| 0 <= i < log_files.items().len() && !old(self).file_slices@.dom().contains((#[trigger] log_files.items()[i]).base_commit_timestamp@),
@start
    let ghost ls = log_files.items(); let ghost mut n: int = 0;
    proof { assert forall|n: int, h: FileGroup, h2: FileGroup| #![trigger logs_added(*self, ls, n, h), log_added(h, ls[n], h2)] 0 <= n < ls.len() && logs_added(*self, ls, n, h) && same_group(h, h2) && log_added(h, ls[n], h2) implies logs_added(*self, ls, n + 1, h2) by { lemma_logs_step(*self, ls, n, h, h2); } }
@loop 0
    invariant 0 <= n <= ls.len(), vx_it0@ == ls.subrange(n, ls.len() as int), logs_added(*old(self), ls, n, *self), ls == log_files.items(),
        forall|n: int, h: FileGroup, h2: FileGroup| #![trigger logs_added(*old(self), ls, n, h), log_added(h, ls[n], h2)] 0 <= n < ls.len() && logs_added(*old(self), ls, n, h) && same_group(h, h2) && log_added(h, ls[n], h2) ==> logs_added(*old(self), ls, n + 1, h2),
    ensures n == ls.len(), logs_added(*old(self), ls, n, *self)
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(log_file == ls[n]); n = n + 1; assert(ls.subrange(n - 1, ls.len() as int).drop_first() =~= ls.subrange(n, ls.len() as int)); }
//@end
/// k is the newest commit not after t
pub open spec fn newest(m: Map<Seq<char>, FileSlice>, t: Seq<char>, k: Seq<char>) -> bool {
    m.dom().contains(k) && str_le(k, t) && forall|j: Seq<char>| #[trigger] m.dom().contains(j) && str_le(j, t) ==> str_le(j, k)
}
pub open spec fn all_later(m: Map<Seq<char>, FileSlice>, t: Seq<char>) -> bool { forall|j: Seq<char>| #[trigger] m.dom().contains(j) ==> !str_le(j, t) }
//@fn crates/core/src/file_group/mod.rs FileGroup::get_file_slice_as_of
@spec
    ensures match ret { Some(s) => exists|k: Seq<char>| #[trigger] newest(self.file_slices@, timestamp@, k) && *s == self.file_slices@[k], None => all_later(self.file_slices@, timestamp@) }
@start
    proof { let m = self.file_slices@; assert forall|k: Seq<char>| #![trigger m.dom().contains(k)] m.dom().contains(k) && str_le(k, timestamp@) && (forall|j: Seq<char>| #[trigger] m.dom().contains(j) && str_le(j, timestamp@) ==> str_le(j, k)) implies newest(m, timestamp@, k) by {};
        assert forall|k: Seq<char>| #![trigger str_le(k, k)] str_le(k, k) by { lemma_str_order(k, k, k); } }
//@end
//@fn crates/core/src/file_group/mod.rs FileGroup::get_file_slice_mut_as_of
@spec
    ensures same_group(*old(self), *final(self)),
        match ret {
            Some(s) => exists|k: Seq<char>| #[trigger] newest(old(self).file_slices@, timestamp@, k) && *s == old(self).file_slices@[k] && final(self).file_slices@ == old(self).file_slices@.insert(k, *final(s)),
            None => all_later(old(self).file_slices@, timestamp@) && final(self).file_slices@ == old(self).file_slices@ }
@start
    proof { let m = self.file_slices@; assert forall|k: Seq<char>| #![trigger m.dom().contains(k)] m.dom().contains(k) && str_le(k, timestamp@) && (forall|j: Seq<char>| #[trigger] m.dom().contains(j) && str_le(j, timestamp@) ==> str_le(j, k)) implies newest(m, timestamp@, k) by {};
        assert forall|k: Seq<char>| #![trigger str_le(k, k)] str_le(k, k) by { lemma_str_order(k, k, k); } }
//@end
/// the newest slice is unique
pub proof fn newest_unique(m: Map<Seq<char>, FileSlice>, t: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires newest(m, t, a), newest(m, t, b)
    ensures a == b
{ lemma_str_order(a, b, a); lemma_str_order(b, a, b); }

pub open spec fn slice_merged(a: FileSlice, o: FileSlice, b: FileSlice) -> bool { a.same(&o) && b.base_file == a.base_file && b.partition_path == a.partition_path && logs_union(a.log_files@, o.log_files@, b.log_files@) }
pub open spec fn key_in(e: Seq<(&String, &FileSlice)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k }
pub open spec fn merged_key(g: Map<Seq<char>, FileSlice>, o: FileSlice, k: Seq<char>, h: FileSlice) -> bool { if g.dom().contains(k) { slice_merged(g[k], o, h) } else { h == o } }
/// the first n slices of the other group have been taken in
pub open spec fn merged_upto(g: Map<Seq<char>, FileSlice>, e: Seq<(&String, &FileSlice)>, n: int, h: Map<Seq<char>, FileSlice>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] h.dom().contains(k) <==> g.dom().contains(k) || key_in(e, n, k)
    &&& forall|k: Seq<char>| #[trigger] g.dom().contains(k) && !key_in(e, n, k) ==> h[k] == g[k]
    &&& forall|i: int| 0 <= i < n ==> merged_key(g, *(#[trigger] e[i]).1, e[i].0@, h[e[i].0@])
}
/// both groups' slices, those of one commit united
pub open spec fn merged(g: Map<Seq<char>, FileSlice>, o: Map<Seq<char>, FileSlice>, h: Map<Seq<char>, FileSlice>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] h.dom().contains(k) <==> g.dom().contains(k) || o.dom().contains(k)
    &&& forall|k: Seq<char>| #[trigger] g.dom().contains(k) && !o.dom().contains(k) ==> h[k] == g[k]
    &&& forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> merged_key(g, o[k], k, h[k])
}
pub proof fn lemma_merged_step(g: Map<Seq<char>, FileSlice>, e: Seq<(&String, &FileSlice)>, n: int, h: Map<Seq<char>, FileSlice>, h2: Map<Seq<char>, FileSlice>, v: FileSlice)
    requires 0 <= n < e.len(), merged_upto(g, e, n, h), forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@,
        h2 == h.insert(e[n].0@, v), if h.dom().contains(e[n].0@) { slice_merged(h[e[n].0@], *e[n].1, v) } else { v == *e[n].1 }
    ensures merged_upto(g, e, n + 1, h2)
{
    let x = e[n].0@;
    assert(!key_in(e, n, x));
    assert forall|k: Seq<char>| #[trigger] h2.dom().contains(k) <==> g.dom().contains(k) || key_in(e, n + 1, k) by {
        if k == x { assert(e[n].0@ == k); assert(key_in(e, n + 1, k)); }
        else { if key_in(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k; assert(key_in(e, n + 1, k)); } if key_in(e, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0@ == k; assert(i < n); assert(key_in(e, n, k)); } }
    }
    assert forall|k: Seq<char>| #[trigger] g.dom().contains(k) && !key_in(e, n + 1, k) implies h2[k] == g[k] by { assert(k != x) by { assert(e[n].0@ == x); } if key_in(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k; } }
    assert forall|i: int| 0 <= i < n + 1 implies merged_key(g, *(#[trigger] e[i]).1, e[i].0@, h2[e[i].0@]) by { if i < n { assert(e[i].0@ != x); } }
}
pub proof fn lemma_merged_done(g: Map<Seq<char>, FileSlice>, e: Seq<(&String, &FileSlice)>, o: Map<Seq<char>, FileSlice>, h: Map<Seq<char>, FileSlice>)
    requires lists::<String, FileSlice>(e, o, |k: Seq<char>| true), merged_upto(g, e, e.len() as int, h)
    ensures merged(g, o, h)
{
    assert forall|k: Seq<char>| o.dom().contains(k) <==> #[trigger] key_in(e, e.len() as int, k) by { if o.dom().contains(k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(e[i].0@ == k); } }
    assert forall|k: Seq<char>| #[trigger] o.dom().contains(k) implies merged_key(g, o[k], k, h[k]) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(e[i].0@ == k); }
    assert forall|k: Seq<char>| #[trigger] g.dom().contains(k) && !o.dom().contains(k) implies h[k] == g[k] by { assert(!key_in(e, e.len() as int, k)); }
    assert forall|k: Seq<char>| #[trigger] h.dom().contains(k) <==> g.dom().contains(k) || o.dom().contains(k) by { assert(o.dom().contains(k) <==> key_in(e, e.len() as int, k)); }
}
//@fn crates/core/src/file_group/mod.rs FileGroup::merge
@rule opaque_fmt
@spec
    ensures same_group(*old(self), *final(self)),
        ret is Ok ==> (*old(self)).same(other) && merged(old(self).file_slices@, other.file_slices@, final(self).file_slices@),
        ret is Err ==> !(*old(self)).same(other) || exists|k: Seq<char>| #![trigger other.file_slices@.dom().contains(k)] old(self).file_slices@.dom().contains(k) && other.file_slices@.dom().contains(k) && !old(self).file_slices@[k].same(&other.file_slices@[k]),
@start
    let ghost g = self.file_slices@; let ghost mut n: int = 0;
@loop 0 pre
    let ghost e = vx_it0@;
@loop 0
    invariant 0 <= n <= e.len(), vx_it0@ == e.subrange(n, e.len() as int), same_group(*old(self), *self), (*old(self)).same(other), g == old(self).file_slices@,
        lists::<String, FileSlice>(e, other.file_slices@, |k: Seq<char>| true), merged_upto(g, e, n, self.file_slices@),
    ensures n == e.len(), merged_upto(g, e, n, self.file_slices@)
    decreases vx_it0@.len()
@loop 0 start
    let ghost pre = self.file_slices@;
    proof { assert(commit_timestamp == e[n].0 && other_file_slice == e[n].1); assert(e.subrange(n, e.len() as int).drop_first() =~= e.subrange(n + 1, e.len() as int)); assert(!key_in(e, n, e[n].0@)); }
@loop 0 post
    proof { lemma_merged_done(g, e, other.file_slices@, self.file_slices@); }
@loop 0 end
    proof { lemma_merged_step(g, e, n, pre, self.file_slices@, self.file_slices@[e[n].0@]); n = n + 1; }
//@end
}
