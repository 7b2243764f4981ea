//@include file_group.inc
//@include json.rs
verus! {
//@rule path Value VValue
//@rule path Map VMap
//@rule path HashSet VHSet
//@rule path Path VPath
/// Hash and Eq of a file group see its id and partition (FileGroup::eq above)
impl VxKey for FileGroup { type K = (Seq<char>, Seq<char>); open spec fn k(&self) -> (Seq<char>, Seq<char>) { (self.file_id@, self.partition_path@) } }

//@prop C05 C06
/// what tells two log files apart
pub open spec fn lk(l: LogFile) -> (Seq<char>, Seq<char>, Seq<char>, Seq<char>, Seq<char>) { (l.file_id@, l.base_commit_timestamp@, l.extension@, l.version@, l.write_token@) }
pub open spec fn has_log(s: Set<LogFile>, l: LogFile) -> bool { exists|e: LogFile| #[trigger] s.contains(e) && lk(e) == lk(l) }
pub proof fn log_order_lk(a: LogFile, b: LogFile) ensures log_order(a, b) == Ordering::Equal <==> lk(a) == lk(b)
{
    lemma_str_order(a.base_commit_timestamp@, b.base_commit_timestamp@, a.base_commit_timestamp@);
    lemma_str_order(a.version@, b.version@, a.version@);
    lemma_str_order(a.write_token@, b.write_token@, a.write_token@);
    lemma_str_order(a.file_id@, b.file_id@, a.file_id@);
    lemma_str_order(a.extension@, b.extension@, a.extension@);
}
pub proof fn has_name_log(s: Set<LogFile>, l: LogFile) ensures has_name(s, l) <==> has_log(s, l)
{
    if has_name(s, l) { let e = choose|e: LogFile| #[trigger] s.contains(e) && log_order(e, l) == Ordering::Equal; log_order_lk(e, l); }
    if has_log(s, l) { let e = choose|e: LogFile| #[trigger] s.contains(e) && lk(e) == lk(l); log_order_lk(e, l); }
}
/// every slice and log file of x is in g
pub open spec fn slice_covered(x: FileSlice, g: FileSlice) -> bool { x.same(&g) && forall|l: LogFile| #[trigger] x.log_files@.contains(l) ==> has_log(g.log_files@, l) }
pub open spec fn covered(x: FileGroup, g: FileGroup) -> bool { forall|k: Seq<char>| #[trigger] x.file_slices@.dom().contains(k) ==> g.file_slices@.dom().contains(k) && slice_covered(x.file_slices@[k], g.file_slices@[k]) }
/// the slice of commit k, its base file and its log files come from some of the groups made
pub open spec fn base_from(made: Seq<FileGroup>, key: (Seq<char>, Seq<char>), k: Seq<char>, s: FileSlice) -> bool { exists|i: int| 0 <= i < made.len() && (#[trigger] made[i]).k() == key && made[i].file_slices@.dom().contains(k) && made[i].file_slices@[k].base_file == s.base_file && made[i].file_slices@[k].partition_path == s.partition_path }
pub open spec fn log_from(made: Seq<FileGroup>, key: (Seq<char>, Seq<char>), k: Seq<char>, l: LogFile) -> bool { exists|i: int| 0 <= i < made.len() && (#[trigger] made[i]).k() == key && made[i].file_slices@.dom().contains(k) && made[i].file_slices@[k].log_files@.contains(l) }
pub open spec fn slice_from(made: Seq<FileGroup>, key: (Seq<char>, Seq<char>), k: Seq<char>, s: FileSlice) -> bool { base_from(made, key, k, s) && forall|l: LogFile| #[trigger] s.log_files@.contains(l) ==> log_from(made, key, k, l) }
pub open spec fn group_from(made: Seq<FileGroup>, key: (Seq<char>, Seq<char>), g: FileGroup) -> bool {
    &&& exists|i: int| 0 <= i < made.len() && (#[trigger] made[i]).k() == key
    &&& forall|k: Seq<char>| #[trigger] g.file_slices@.dom().contains(k) ==> slice_from(made, key, k, g.file_slices@[k])
}
pub open spec fn in_set(x: FileGroup, m: Map<(Seq<char>, Seq<char>), FileGroup>) -> bool { m.dom().contains(x.k()) && covered(x, m[x.k()]) }
/// m is the union of the groups made: all of them, and nothing else
pub open spec fn holds(made: Seq<FileGroup>, m: Map<(Seq<char>, Seq<char>), FileGroup>) -> bool {
    &&& forall|i: int| 0 <= i < made.len() ==> in_set(#[trigger] made[i], m)
    &&& forall|key: (Seq<char>, Seq<char>)| #[trigger] m.dom().contains(key) ==> m[key].k() == key && group_from(made, key, m[key])
}
pub proof fn lemma_holds_step(made: Seq<FileGroup>, m: Map<(Seq<char>, Seq<char>), FileGroup>, x: FileGroup, g: FileGroup, m2: Map<(Seq<char>, Seq<char>), FileGroup>)
    requires holds(made, m), g.k() == x.k(), m2 == m.insert(x.k(), g),
        if m.dom().contains(x.k()) { merged(m[x.k()].file_slices@, x.file_slices@, g.file_slices@) } else { g == x }
    ensures holds(made.push(x), m2)
{
    let all = made.push(x); let key = x.k();
    assert forall|k2: (Seq<char>, Seq<char>), k: Seq<char>, s: FileSlice| slice_from(made, k2, k, s) implies #[trigger] slice_from(all, k2, k, s) by {
        let i = choose|i: int| 0 <= i < made.len() && (#[trigger] made[i]).k() == k2 && made[i].file_slices@.dom().contains(k) && made[i].file_slices@[k].base_file == s.base_file && made[i].file_slices@[k].partition_path == s.partition_path;
        assert(all[i] == made[i]);
        assert forall|l: LogFile| #[trigger] s.log_files@.contains(l) implies log_from(all, k2, k, l) by { assert(log_from(made, k2, k, l)); let j = choose|j: int| 0 <= j < made.len() && (#[trigger] made[j]).k() == k2 && made[j].file_slices@.dom().contains(k) && made[j].file_slices@[k].log_files@.contains(l); assert(all[j] == made[j]); }
    }
    assert(all[made.len() as int] == x);
    if m.dom().contains(key) {
        let a = m[key]; 
        // what was covered stays covered
        assert forall|y: FileGroup| #[trigger] covered(y, a) && y.k() == key implies covered(y, g) by {
            assert forall|k: Seq<char>| #[trigger] y.file_slices@.dom().contains(k) implies g.file_slices@.dom().contains(k) && slice_covered(y.file_slices@[k], g.file_slices@[k]) by {
                if x.file_slices@.dom().contains(k) { assert(merged_key(a.file_slices@, x.file_slices@[k], k, g.file_slices@[k])); assert(slice_covered(y.file_slices@[k], a.file_slices@[k])); }
            }
        }
        assert(covered(x, g)) by {
            assert forall|k: Seq<char>| #[trigger] x.file_slices@.dom().contains(k) implies g.file_slices@.dom().contains(k) && slice_covered(x.file_slices@[k], g.file_slices@[k]) by {
                let o = x.file_slices@[k];
                assert(merged_key(a.file_slices@, o, k, g.file_slices@[k]));
                assert forall|l: LogFile| #[trigger] o.log_files@.contains(l) implies has_log(g.file_slices@[k].log_files@, l) by { if a.file_slices@.dom().contains(k) { assert(has_name(g.file_slices@[k].log_files@, l)); has_name_log(g.file_slices@[k].log_files@, l); } }
            }
        }
        assert(group_from(all, key, g)) by {
            assert forall|k: Seq<char>| #[trigger] g.file_slices@.dom().contains(k) implies slice_from(all, key, k, g.file_slices@[k]) by {
                let s = g.file_slices@[k];
                if a.file_slices@.dom().contains(k) {
                    assert(slice_from(made, key, k, a.file_slices@[k])); assert(slice_from(all, key, k, a.file_slices@[k]));
                    if x.file_slices@.dom().contains(k) {
                        assert(merged_key(a.file_slices@, x.file_slices@[k], k, s));
                        assert(base_from(all, key, k, s));
                        assert forall|l: LogFile| #[trigger] s.log_files@.contains(l) implies log_from(all, key, k, l) by { if a.file_slices@[k].log_files@.contains(l) {} else { assert(x.file_slices@[k].log_files@.contains(l)); assert(all[made.len() as int] == x); } }
                    } else { assert(s == a.file_slices@[k]); }
                } else { assert(x.file_slices@.dom().contains(k)); assert(merged_key(a.file_slices@, x.file_slices@[k], k, s)); assert(s == x.file_slices@[k]); }
            }
        }
    } else {
        assert(covered(x, x)) by { assert forall|k: Seq<char>| #[trigger] x.file_slices@.dom().contains(k) implies slice_covered(x.file_slices@[k], x.file_slices@[k]) by {} }
        assert(group_from(all, key, x)) by { assert forall|k: Seq<char>| #[trigger] x.file_slices@.dom().contains(k) implies slice_from(all, key, k, x.file_slices@[k]) by { assert(all[made.len() as int] == x); } }
    }
    assert forall|i: int| 0 <= i < all.len() implies in_set(#[trigger] all[i], m2) by { if i < made.len() { assert(all[i] == made[i]); assert(in_set(made[i], m)); if made[i].k() == key { assert(covered(made[i], m[key])); assert(covered(made[i], g)); } } }
    assert forall|k2: (Seq<char>, Seq<char>)| #[trigger] m2.dom().contains(k2) implies m2[k2].k() == k2 && group_from(all, k2, m2[k2]) by {
        if k2 != key { assert(m.dom().contains(k2)); assert(group_from(made, k2, m[k2])); let i = choose|i: int| 0 <= i < made.len() && (#[trigger] made[i]).k() == k2; assert(all[i] == made[i]); 
            assert forall|k: Seq<char>| #[trigger] m[k2].file_slices@.dom().contains(k) implies slice_from(all, k2, k, m[k2].file_slices@[k]) by { assert(slice_from(made, k2, k, m[k2].file_slices@[k])); } }
        else { assert(all[made.len() as int].k() == key); }
    }
}
/// two of the groups made are one file group and disagree on the base file of a commit
pub open spec fn clash(a: FileGroup, b: FileGroup) -> bool { a.k() == b.k() && exists|k: Seq<char>| #![trigger a.file_slices@.dom().contains(k)] #![trigger b.file_slices@.dom().contains(k)] a.file_slices@.dom().contains(k) && b.file_slices@.dom().contains(k) && !a.file_slices@[k].same(&b.file_slices@[k]) }
pub open spec fn clashing(xs: Seq<FileGroup>) -> bool { exists|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() && clash(#[trigger] xs[i], #[trigger] xs[j]) }
pub proof fn lemma_clash(made: Seq<FileGroup>, m: Map<(Seq<char>, Seq<char>), FileGroup>, xs: Seq<FileGroup>, n: int, k: Seq<char>)
    requires 0 <= n < xs.len(), holds(made + xs.subrange(0, n), m), m.dom().contains(xs[n].k()), m[xs[n].k()].file_slices@.dom().contains(k), xs[n].file_slices@.dom().contains(k), !m[xs[n].k()].file_slices@[k].same(&xs[n].file_slices@[k])
    ensures clashing(made + xs)
{
    let m1 = made + xs.subrange(0, n); let all = made + xs; let key = xs[n].k();
    assert(group_from(m1, key, m[key])); assert(slice_from(m1, key, k, m[key].file_slices@[k])); let s = m[key].file_slices@[k];
    let i = choose|i: int| 0 <= i < m1.len() && (#[trigger] m1[i]).k() == key && m1[i].file_slices@.dom().contains(k) && m1[i].file_slices@[k].base_file == s.base_file && m1[i].file_slices@[k].partition_path == s.partition_path;
    assert(all[i] == m1[i]); assert(all[made.len() + n] == xs[n]);
    assert(!all[i].file_slices@[k].same(&xs[n].file_slices@[k]));
    assert(clash(all[i], all[made.len() + n]));
}
//@fn crates/core/src/file_group/builder.rs FileGroupMerger for HashSet::merge
@spec
    ensures ret is Ok ==> forall|made: Seq<FileGroup>| #[trigger] holds(made, old(self)@) ==> holds(made + file_groups.items(), final(self)@),
        ret is Err ==> forall|made: Seq<FileGroup>| #[trigger] holds(made, old(self)@) ==> clashing(made + file_groups.items())
@before existing.merge(&file_group)?;
    let ghost g0 = existing;
    proof {
        assert(g0 == pre[x.k()]);
        assert forall|made: Seq<FileGroup>, k: Seq<char>| #![trigger holds(made, old(self)@), x.file_slices@.dom().contains(k)] holds(made, old(self)@) && g0.file_slices@.dom().contains(k) && x.file_slices@.dom().contains(k) && !g0.file_slices@[k].same(&x.file_slices@[k]) implies clashing(made + xs) by { assert(holds(made + xs.subrange(0, n), pre)); lemma_clash(made, pre, xs, n, k); }
    }
@start
    let ghost xs = file_groups.items(); let ghost mut n: int = 0;
    proof { assert forall|made: Seq<FileGroup>| #[trigger] holds(made, self@) implies holds(made + xs.subrange(0, 0), self@) by { assert(made + xs.subrange(0, 0) =~= made); } }
@loop 0
    invariant 0 <= n <= xs.len(), vx_it0@ == xs.subrange(n, xs.len() as int), xs == file_groups.items(),
        forall|made: Seq<FileGroup>| #[trigger] holds(made, old(self)@) ==> holds(made + xs.subrange(0, n), self@),
    ensures n == xs.len(), forall|made: Seq<FileGroup>| #[trigger] holds(made, old(self)@) ==> holds(made + xs.subrange(0, n), self@),
    decreases vx_it0@.len()
@loop 0 start
    let ghost pre = self@; let ghost x = file_group;
    proof { assert(file_group == xs[n]); assert(xs.subrange(n, xs.len() as int).drop_first() =~= xs.subrange(n + 1, xs.len() as int)); }
@loop 0 end
    proof {
        assert(self@.dom().contains(x.k()));
        assert forall|made: Seq<FileGroup>| #[trigger] holds(made, old(self)@) implies holds(made + xs.subrange(0, n + 1), self@) by {
            let m1 = made + xs.subrange(0, n);
            assert(holds(m1, pre));
            assert(pre.remove(x.k()).insert(x.k(), self@[x.k()]) =~= pre.insert(x.k(), self@[x.k()]));
            lemma_holds_step(m1, pre, x, self@[x.k()], self@);
            assert(m1.push(x) =~= made + xs.subrange(0, n + 1));
        }
        n = n + 1;
    }
@loop 0 post
    proof { assert(xs.subrange(0, xs.len() as int) =~= xs); }
//@end

// ---- commit metadata to file groups --------------------------------------------------------------
pub open spec fn stat_id(s: VValue) -> Option<Seq<char>> { v_opt_str(obj_get(s, "fileId"@)) }
/// the base file a write stat names: `baseFile` beside log files, else the file written
pub open spec fn stat_base(s: VValue) -> Option<Seq<char>> {
    match obj_get(s, "baseFile"@) { Some(b) => b.v_str(), None => match v_opt_str(obj_get(s, "path"@)) { Some(p) => path_file_name(p), None => None } }
}
pub open spec fn stat_logs(s: VValue) -> Seq<VValue> {
    match obj_get(s, "baseFile"@) { None => Seq::empty(), Some(_) => match obj_get(s, "logFiles"@) { Some(l) => match l.v_arr() { Some(a) => a, None => Seq::empty() }, None => Seq::empty() } }
}
/// l is the log file of that name
pub open spec fn names_log(v: VValue, l: LogFile) -> bool { v.v_str() matches Some(n) && log_of(n, l) }
/// the group holds the slice of base file b with the first n log files named, and nothing else
pub open spec fn stat_group(p: Seq<char>, s: VValue, n: int, b: BaseFile, g: FileGroup) -> bool {
    &&& stat_id(s) == Some(g.file_id@) && g.partition_path@ == p
    &&& stat_base(s) matches Some(bn) && base_of(bn, b)
    &&& g.file_slices@.dom() == Set::<Seq<char>>::empty().insert(b.commit_timestamp@)
    &&& ({ let sl = g.file_slices@[b.commit_timestamp@];
        &&& sl.base_file == b && sl.partition_path@ == p
        &&& forall|i: int| 0 <= i < n ==> log_in(#[trigger] stat_logs(s)[i], sl.log_files@)
        &&& forall|l: LogFile| #[trigger] sl.log_files@.contains(l) ==> l.base_commit_timestamp@ == b.commit_timestamp@ && log_named(l, s, n) })
}
#[verifier::opaque]
pub open spec fn log_in(v: VValue, ls: Set<LogFile>) -> bool { exists|l: LogFile| #[trigger] names_log(v, l) && has_log(ls, l) }
#[verifier::opaque]
pub open spec fn log_named(l: LogFile, s: VValue, n: int) -> bool { exists|i: int| 0 <= i < n && names_log(#[trigger] stat_logs(s)[i], l) }
pub open spec fn group_of_stat(p: Seq<char>, s: VValue, g: FileGroup) -> bool { exists|b: BaseFile| #[trigger] stat_group(p, s, stat_logs(s).len() as int, b, g) }
pub proof fn lemma_stat_log(p: Seq<char>, s: VValue, n: int, b: BaseFile, g: FileGroup, l: LogFile, h: FileGroup)
    requires stat_group(p, s, n, b, g), 0 <= n < stat_logs(s).len(), names_log(stat_logs(s)[n], l), log_added(g, l, h), same_group(g, h)
    ensures stat_group(p, s, n + 1, b, h)
{
    let k = b.commit_timestamp@;
    assert(l.base_commit_timestamp@ == k);
    let a = g.file_slices@[k].log_files@; let c = h.file_slices@[k].log_files@;
    assert forall|i: int| 0 <= i < n + 1 implies log_in(#[trigger] stat_logs(s)[i], c) by {
        reveal(log_in);
        if i < n { let x = choose|x: LogFile| #[trigger] names_log(stat_logs(s)[i], x) && has_log(a, x); let e = choose|e: LogFile| #[trigger] a.contains(e) && lk(e) == lk(x); assert(c.contains(e)); assert(has_log(c, x)); }
        else { if exists|e: LogFile| #[trigger] a.contains(e) && e.order(l) == Ordering::Equal { let e = choose|e: LogFile| #[trigger] a.contains(e) && e.order(l) == Ordering::Equal; log_order_lk(e, l); assert(c.contains(e)); } else { assert(c.contains(l)); } assert(has_log(c, l)); }
    }
    assert forall|x: LogFile| #[trigger] c.contains(x) implies x.base_commit_timestamp@ == k && log_named(x, s, n + 1) by {
        reveal(log_named);
        if a.contains(x) { assert(log_named(x, s, n)); let i = choose|i: int| 0 <= i < n && names_log(#[trigger] stat_logs(s)[i], x); assert(names_log(stat_logs(s)[i], x)); }
        else { assert(x == l); assert(names_log(stat_logs(s)[n], l)); }
    }
}
pub open spec fn stats_of(m: Map<Seq<char>, VValue>) -> Option<Map<Seq<char>, VValue>> { match map_get(m, "partitionToWriteStats"@) { Some(v) => v.v_obj(), None => None } }
pub open spec fn is_stat(m: Map<Seq<char>, VValue>, p: Seq<char>, s: VValue) -> bool { stats_of(m) matches Some(ps) && ps.dom().contains(p) && (ps[p].v_arr() matches Some(a) && a.contains(s)) }
/// the groups made are those of the write stats, one for each
pub open spec fn stat_source(m: Map<Seq<char>, VValue>, g: FileGroup) -> bool { exists|p: Seq<char>, s: VValue| #[trigger] is_stat(m, p, s) && group_of_stat(p, s, g) }
pub open spec fn stat_made(made: Seq<FileGroup>, p: Seq<char>, s: VValue) -> bool { exists|i: int| 0 <= i < made.len() && group_of_stat(p, s, #[trigger] made[i]) }
pub open spec fn made_from_stats(made: Seq<FileGroup>, m: Map<Seq<char>, VValue>) -> bool {
    &&& forall|i: int| 0 <= i < made.len() ==> stat_source(m, #[trigger] made[i])
    &&& forall|p: Seq<char>, s: VValue| #[trigger] is_stat(m, p, s) ==> stat_made(made, p, s)
}
pub open spec fn commit_groups(m: Map<Seq<char>, VValue>, gs: Map<(Seq<char>, Seq<char>), FileGroup>) -> bool { exists|made: Seq<FileGroup>| #[trigger] made_from_stats(made, m) && holds(made, gs) }
pub proof fn stat_made_push(made: Seq<FileGroup>, x: FileGroup)
    ensures forall|p: Seq<char>, s: VValue| #[trigger] stat_made(made, p, s) ==> stat_made(made.push(x), p, s), forall|p: Seq<char>, s: VValue| #[trigger] group_of_stat(p, s, x) ==> stat_made(made.push(x), p, s)
{
    let all = made.push(x);
    assert forall|p: Seq<char>, s: VValue| #[trigger] stat_made(made, p, s) implies stat_made(all, p, s) by { let i = choose|i: int| 0 <= i < made.len() && group_of_stat(p, s, #[trigger] made[i]); assert(all[i] == made[i]); }
    assert forall|p: Seq<char>, s: VValue| #[trigger] group_of_stat(p, s, x) implies stat_made(all, p, s) by { assert(all[made.len() as int] == x); }
}
/// why a write stat does not denote a file group
pub open spec fn bad_log(bn: Seq<char>, v: VValue) -> bool { match v.v_str() { None => true, Some(n) => no_log(n) || exists|l: LogFile, b: BaseFile| #[trigger] log_of(n, l) && #[trigger] base_of(bn, b) && l.base_commit_timestamp@ != b.commit_timestamp@ } }
pub open spec fn some_bad_log(bn: Seq<char>, a: Seq<VValue>) -> bool { exists|i: int| 0 <= i < a.len() && bad_log(bn, #[trigger] a[i]) }
pub open spec fn bad_stat(s: VValue) -> bool {
    stat_id(s) is None || match stat_base(s) { None => true, Some(bn) => no_base(bn) || (obj_get(s, "baseFile"@) is Some && match obj_get(s, "logFiles"@) { None => true, Some(l) => match l.v_arr() { None => true, Some(a) => some_bad_log(bn, a) } }) }
}
pub open spec fn some_no_array(ps: Map<Seq<char>, VValue>) -> bool { exists|p: Seq<char>| #[trigger] ps.dom().contains(p) && ps[p].v_arr() is None }
pub open spec fn bad_commit(m: Map<Seq<char>, VValue>) -> bool {
    ||| match stats_of(m) { None => true, Some(ps) => some_no_array(ps) }
    ||| exists|p: Seq<char>, s: VValue| #[trigger] is_stat(m, p, s) && bad_stat(s)
    ||| exists|a: FileGroup, b: FileGroup| #[trigger] stat_source(m, a) && #[trigger] stat_source(m, b) && clash(a, b)
}
pub proof fn lemma_bad_clash(m: Map<Seq<char>, VValue>, xs: Seq<FileGroup>) requires clashing(xs), forall|i: int| 0 <= i < xs.len() ==> stat_source(m, #[trigger] xs[i]) ensures bad_commit(m)
{ let (i, j) = choose|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() && clash(#[trigger] xs[i], #[trigger] xs[j]); assert(stat_source(m, xs[i]) && stat_source(m, xs[j])); }
//@fn crates/core/src/file_group/builder.rs build_file_groups
@rule opaque_fmt
@loops 3
@spec
    ensures match ret { Ok(gs) => commit_groups(commit_metadata@, gs@), Err(_) => bad_commit(commit_metadata@) }
@start
    let ghost meta = commit_metadata@; let ghost mut made: Seq<FileGroup> = Seq::empty(); let ghost mut np: int = 0;
    proof { assert forall|b: BaseFile, g: FileGroup, h: FileGroup, l: LogFile, p: Seq<char>, s: VValue, n: int| #![trigger stat_group(p, s, n, b, g), log_added(g, l, h)] stat_group(p, s, n, b, g) && 0 <= n < stat_logs(s).len() && names_log(stat_logs(s)[n], l) && log_added(g, l, h) && same_group(g, h) implies stat_group(p, s, n + 1, b, h) by { lemma_stat_log(p, s, n, b, g, l, h); } }
@closure 0
    |$1: &VValue| -> (r: Option<&VMap<String, VValue>>) ensures match r { None => $1.v_obj() is None, Some(s) => $1.v_obj() == Some(s@) }
@closure 3
    |$1: &VValue| -> (r: Option<&str>) ensures match r { None => $1.v_str() is None, Some(s) => $1.v_str() == Some(s@) }
@closure 8
    |$1: &VValue| -> (r: Option<&str>) ensures match r { None => $1.v_str() is None, Some(s) => $1.v_str() == Some(s@) }
@closure 10
    |$1: &VOsStr| -> (r: Option<&str>) ensures r matches Some(s) && s@ == $1.text()
@after file_group.add_base_file_from_name(base_file_name)?;
    proof { b0 = choose|b: BaseFile| #[trigger] base_of(base_file_name@, b) && b.file_metadata is None && base_added(g0, b, file_group); assert(stat_group(partition@, *stat, 0, b0, file_group)); }
@after file_group.add_base_file_from_name(file_name)?;
    proof { b0 = choose|b: BaseFile| #[trigger] base_of(file_name@, b) && b.file_metadata is None && base_added(g0, b, file_group); assert(stat_group(partition@, *stat, 0, b0, file_group)); }
@after let mut file_group = FileGroup::new(file_id.to_string(), partition.clone());
    let ghost g0 = file_group;
@loop 2 pre
    let ghost ls = log_file_names@; let ghost mut nl: int = 0;
    proof { assert(stat_logs(*stat) == ls); }
@loop 2
    invariant is_stat(meta, partition@, *stat), meta == commit_metadata@, stat_base(*stat) matches Some(bn) && base_of(bn, b0), obj_get(*stat, "baseFile"@) is Some, obj_get(*stat, "logFiles"@) matches Some(lv) && lv.v_arr() == Some(ls), 0 <= nl <= ls.len(), vx_it2@.len() == ls.len() - nl, forall|j: int| 0 <= j < vx_it2@.len() ==> *(#[trigger] vx_it2@[j]) == ls[nl + j], stat_logs(*stat) == ls,
        stat_group(partition@, *stat, nl, b0, file_group),
        forall|b: BaseFile, g: FileGroup, h: FileGroup, l: LogFile, p: Seq<char>, s: VValue, n: int| #![trigger stat_group(p, s, n, b, g), log_added(g, l, h)] stat_group(p, s, n, b, g) && 0 <= n < stat_logs(s).len() && names_log(stat_logs(s)[n], l) && log_added(g, l, h) && same_group(g, h) ==> stat_group(p, s, n + 1, b, h),
    ensures nl == ls.len()
    decreases vx_it2@.len()
@loop 2 start
    let ghost gpre = file_group;
    proof { assert(*log_file_name == ls[nl]); if bad_log(stat_base(*stat).unwrap(), ls[nl]) { assert(bad_stat(*stat)); } }
@loop 2 end
    proof { let l = choose|l: LogFile| #[trigger] log_of(log_file_name@, l) && l.file_metadata is None && log_added(gpre, l, file_group); assert(names_log(stat_logs(*stat)[nl], l)); assert(stat_group(partition@, *stat, nl + 1, b0, file_group)); nl = nl + 1; }
@loop 0 pre
    let ghost ps = partition_stats@; let ghost e = vx_it0@;
    proof { assert(stats_of(meta) == Some(ps)); }
@loop 0
    invariant forall|b: BaseFile, g: FileGroup, h: FileGroup, l: LogFile, p: Seq<char>, s: VValue, n: int| #![trigger stat_group(p, s, n, b, g), log_added(g, l, h)] stat_group(p, s, n, b, g) && 0 <= n < stat_logs(s).len() && names_log(stat_logs(s)[n], l) && log_added(g, l, h) && same_group(g, h) ==> stat_group(p, s, n + 1, b, h),
        0 <= np <= e.len(), vx_it0@ == e.subrange(np, e.len() as int), meta == commit_metadata@, stats_of(meta) == Some(ps), lists::<String, VValue>(e, ps, |k: Seq<char>| true),
        holds(made, file_groups@), forall|i: int| 0 <= i < made.len() ==> stat_source(meta, #[trigger] made[i]),
        forall|i: int, s: VValue| 0 <= i < np && #[trigger] is_stat(meta, e[i].0@, s) ==> stat_made(made, e[i].0@, s),
    ensures np == e.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(partition == e[np].0 && write_stats_array == e[np].1); assert(e.subrange(np, e.len() as int).drop_first() =~= e.subrange(np + 1, e.len() as int)); }
@loop 1 pre
    let ghost a = write_stats@; let ghost mut ns: int = 0; let ghost made0 = made;
    proof { assert(vx_it1@ =~= vx_it1@.subrange(0, vx_it1@.len() as int)); }
@loop 1
    invariant forall|b: BaseFile, g: FileGroup, h: FileGroup, l: LogFile, p: Seq<char>, s: VValue, n: int| #![trigger stat_group(p, s, n, b, g), log_added(g, l, h)] stat_group(p, s, n, b, g) && 0 <= n < stat_logs(s).len() && names_log(stat_logs(s)[n], l) && log_added(g, l, h) && same_group(g, h) ==> stat_group(p, s, n + 1, b, h),
        0 <= ns <= a.len(), vx_it1@.len() == a.len() - ns, forall|j: int| 0 <= j < vx_it1@.len() ==> *(#[trigger] vx_it1@[j]) == a[ns + j], meta == commit_metadata@, stats_of(meta) == Some(ps), 0 <= np < e.len(), lists::<String, VValue>(e, ps, |k: Seq<char>| true),
        partition == e[np].0, ps[partition@].v_arr() == Some(a), ps.dom().contains(partition@),
        holds(made, file_groups@), forall|i: int| 0 <= i < made.len() ==> stat_source(meta, #[trigger] made[i]),
        forall|p: Seq<char>, s: VValue| #[trigger] stat_made(made0, p, s) ==> stat_made(made, p, s),
        forall|j: int| 0 <= j < ns ==> stat_made(made, partition@, #[trigger] a[j]),
    ensures ns == a.len()
    decreases vx_it1@.len()
@loop 1 start
    proof { assert(*stat == a[ns]); assert(is_stat(meta, partition@, *stat)); assert(bad_stat(*stat) ==> bad_commit(meta)); }
    let ghost mut b0: BaseFile = arbitrary();
@before file_groups.merge
    let ghost x = file_group; let ghost pre = file_groups@;
    proof { assert(stat_group(partition@, *stat, stat_logs(*stat).len() as int, b0, x)); assert(group_of_stat(partition@, *stat, x)); assert([x]@ =~= seq![x]); assert(stat_source(meta, x));
        assert forall|i: int| 0 <= i < (made + seq![x]).len() implies stat_source(meta, #[trigger] (made + seq![x])[i]) by { if i < made.len() { assert((made + seq![x])[i] == made[i]); } }
        if clashing(made + seq![x]) { lemma_bad_clash(meta, made + seq![x]); } }
@loop 1 end
    proof {
        assert(holds(made + seq![x], file_groups@)) by { assert([x]@ =~= seq![x]); }
        assert(made + seq![x] =~= made.push(x));
        stat_made_push(made, x);
        assert(stat_source(meta, x));
        made = made.push(x); ns = ns + 1;
    }
@loop 1 post
    proof {
        assert forall|i: int, s: VValue| 0 <= i < np + 1 && #[trigger] is_stat(meta, e[i].0@, s) implies stat_made(made, e[i].0@, s) by {
            if i < np { assert(stat_made(made0, e[i].0@, s)); } else { let j = choose|j: int| 0 <= j < a.len() && a[j] == s; assert(stat_made(made, partition@, a[j])); }
        }
        np = np + 1;
    }
@loop 0 post
    proof {
        assert forall|p: Seq<char>, s: VValue| #[trigger] is_stat(meta, p, s) implies stat_made(made, p, s) by { assert(ps.dom().contains(p)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == p; assert(e[i].0@ == p); }
        assert(made_from_stats(made, meta));
    }
//@end

/// the metadata says that the file group of that id in that partition is replaced
pub open spec fn replaced_of(m: Map<Seq<char>, VValue>) -> Option<Map<Seq<char>, VValue>> { match map_get(m, "partitionToReplaceFileIds"@) { Some(v) => v.v_obj(), None => None } }
pub open spec fn lists_id(v: VValue, id: Seq<char>) -> bool { v.v_arr() matches Some(a) && exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).v_str() == Some(id) }
pub open spec fn replaces(m: Map<Seq<char>, VValue>, key: (Seq<char>, Seq<char>)) -> bool { replaced_of(m) matches Some(ps) && ps.dom().contains(key.1) && lists_id(ps[key.1], key.0) }
/// the ids of the first n entries of the array
pub open spec fn lists_upto(a: Seq<VValue>, n: int, id: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] a[i]).v_str() == Some(id) }
pub open spec fn repl_upto(e: Seq<(&String, &VValue)>, n: int, key: (Seq<char>, Seq<char>)) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == key.1 && lists_id(*e[i].1, key.0) }
pub open spec fn ids_list(v: VValue) -> bool { v.v_arr() matches Some(a) && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).v_str() is Some }
pub open spec fn bad_replace(m: Map<Seq<char>, VValue>) -> bool { match replaced_of(m) { None => true, Some(ps) => some_no_ids(ps) } }
pub open spec fn some_no_ids(ps: Map<Seq<char>, VValue>) -> bool { exists|p: Seq<char>| #[trigger] ps.dom().contains(p) && !ids_list(ps[p]) }
//@fn crates/core/src/file_group/builder.rs build_replaced_file_groups
@rule opaque_fmt
@loops 2
@spec
    ensures match ret { Ok(gs) => forall|key: (Seq<char>, Seq<char>)| #[trigger] gs@.dom().contains(key) <==> replaces(commit_metadata@, key), Err(_) => bad_replace(commit_metadata@) }
@start
    let ghost mut np: int = 0;
@closure 0
    |$1: &VValue| -> (r: Option<&VMap<String, VValue>>) ensures match r { None => $1.v_obj() is None, Some(s) => $1.v_obj() == Some(s@) }
@loop 0 pre
    let ghost ps = partition_to_replaced@; let ghost e = vx_it0@;
@loop 0
    invariant 0 <= np <= e.len(), vx_it0@ == e.subrange(np, e.len() as int), lists::<String, VValue>(e, ps, |k: Seq<char>| true), replaced_of(commit_metadata@) == Some(ps),
        forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> repl_upto(e, np, key),
    ensures np == e.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(partition == e[np].0 && file_ids_value == e[np].1); assert(ps.dom().contains(partition@) && *file_ids_value == ps[partition@]);  assert(file_ids_value.v_arr() is None ==> !ids_list(ps[partition@])); assert(e.subrange(np, e.len() as int).drop_first() =~= e.subrange(np + 1, e.len() as int)); }
@loop 1 pre
    let ghost a = file_ids@; let ghost mut ns: int = 0; let ghost s0 = file_groups@;
@loop 1
    invariant replaced_of(commit_metadata@) == Some(ps), ps.dom().contains(partition@), ps[partition@].v_arr() == Some(a), 0 <= ns <= a.len(), vx_it1@.len() == a.len() - ns, forall|j: int| 0 <= j < vx_it1@.len() ==> *(#[trigger] vx_it1@[j]) == a[ns + j],
        forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> s0.dom().contains(key) || (key.1 == partition@ && lists_upto(a, ns, key.0)),
    ensures ns == a.len()
    decreases vx_it1@.len()
@loop 1 start
    let ghost pre = file_groups@;
    proof { assert(*file_id == a[ns]); if a[ns].v_str() is None { assert(!ids_list(ps[partition@])); } }
@loop 1 end
    proof {
        assert forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> s0.dom().contains(key) || (key.1 == partition@ && lists_upto(a, ns + 1, key.0)) by {
            assert(a[ns].v_str() == Some(id@));
            if key.1 == partition@ && lists_upto(a, ns + 1, key.0) { let i = choose|i: int| 0 <= i < ns + 1 && (#[trigger] a[i]).v_str() == Some(key.0); if i < ns { assert(lists_upto(a, ns, key.0)); } }
            if key.1 == partition@ && lists_upto(a, ns, key.0) { let i = choose|i: int| 0 <= i < ns && (#[trigger] a[i]).v_str() == Some(key.0); assert(lists_upto(a, ns + 1, key.0)); }
        }
        ns = ns + 1;
    }
@loop 1 post
    proof {
        assert forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> repl_upto(e, np + 1, key) by {
            assert(e[np].1.v_arr() == Some(a));
            if repl_upto(e, np + 1, key) { let i = choose|i: int| 0 <= i < np + 1 && (#[trigger] e[i]).0@ == key.1 && lists_id(*e[i].1, key.0); if i < np { assert(repl_upto(e, np, key)); } else { assert(lists_upto(a, a.len() as int, key.0)); } }
            if repl_upto(e, np, key) { let i = choose|i: int| 0 <= i < np && (#[trigger] e[i]).0@ == key.1 && lists_id(*e[i].1, key.0); assert(repl_upto(e, np + 1, key)); }
            if key.1 == partition@ && lists_upto(a, a.len() as int, key.0) { assert(lists_id(*e[np].1, key.0)); assert(e[np].0@ == key.1); }
        }
        np = np + 1;
    }
@loop 0 post
    proof {
        assert forall|key: (Seq<char>, Seq<char>)| #[trigger] file_groups@.dom().contains(key) <==> replaces(commit_metadata@, key) by {
            if replaces(commit_metadata@, key) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == key.1; assert(e[i].0@ == key.1); assert(repl_upto(e, np, key)); }
        }
    }
//@end
}
