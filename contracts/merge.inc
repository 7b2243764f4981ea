//@include merge_base.inc
verus! {
// ---- merging --------------------------------------------------------------------------------------------
//@prop C11
//@type crates/core/src/merge/mod.rs RecordMergeStrategyValue structural strum
//@fn crates/core/src/merge/mod.rs FromStr for RecordMergeStrategyValue::from_str
@spec
    ensures match ret { Ok(v) => names_strategy(s@) == Some(name_RecordMergeStrategyValue(v)), Err(e) => names_strategy(s@) is None && !(e is NotFound) }
//@end
pub proof fn lemma_strategy_names() ensures ascii_lower("append_only"@) == "append_only"@, ascii_lower("overwrite_with_latest"@) == "overwrite_with_latest"@, "append_only"@ != "overwrite_with_latest"@, name_RecordMergeStrategyValue(RecordMergeStrategyValue::AppendOnly) == "append_only"@, name_RecordMergeStrategyValue(RecordMergeStrategyValue::OverwriteWithLatest) == "overwrite_with_latest"@
{
    reveal_strlit("append_only"); reveal_strlit("overwrite_with_latest");
    assert("append_only"@.len() == 11 && "overwrite_with_latest"@.len() == 21);
    assert(ascii_lower("append_only"@) =~= "append_only"@);
    assert(ascii_lower("overwrite_with_latest"@) =~= "overwrite_with_latest"@);
}
pub proof fn lemma_selected(fs: Seq<Field>, from: Seq<RecordBatch>, to: Seq<RecordBatch>) requires selected(fs, from, to) ensures flat(to) == all_rows(fs, from) decreases from.len()
{ if from.len() > 0 { lemma_selected(fs, from.drop_last(), to.drop_last()); } }
pub open spec fn versions(fs: Seq<Field>, pre: Seq<char>, rows: Seq<Row>) -> Seq<Row> { rows.map_values(|r: Row| version(fs, pre, r)) }
pub open spec fn values_of<'a, K>(e: Seq<(&'a K, &'a u32)>, out: Seq<u32>) -> bool { out.len() == e.len() && forall|i: int| #![trigger out[i]] #![trigger e[i]] 0 <= i < e.len() ==> out[i] == *e[i].1 }
pub proof fn lemma_latest<'a, 'b>(fs: Seq<Field>, pre: Seq<char>, rows: Seq<Row>, ix: Seq<u32>, m: Map<Seq<char>, u32>, e: Seq<(&'a &'b str, &'a u32)>, out: Seq<u32>)
    requires lists_all::<&'b str, u32>(e, m), values_of(e, out), orders(ix, versions(fs, pre, rows), true),
        forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|p: int| 0 <= p < ix.len() && #[trigger] ix[p] == m[k] && row_key(fs, rows[ix[p] as int]) == k,
        forall|p: int| 0 <= p < ix.len() ==> #[trigger] earlier(fs, rows, ix, m, p)
    ensures latest(fs, pre, rows, out)
{
    assert forall|i: int| 0 <= i < out.len() implies (#[trigger] out[i]) < rows.len() && row_key(fs, rows[out[i] as int]) == e[i].0.k() by { let k = e[i].0.k(); assert(m.dom().contains(k)); let p = choose|p: int| 0 <= p < ix.len() && #[trigger] ix[p] == m[k] && row_key(fs, rows[ix[p] as int]) == k; }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies row_key(fs, rows[(#[trigger] out[i]) as int]) != row_key(fs, rows[(#[trigger] out[j]) as int]) by { assert(e[i].0.k() != e[j].0.k()); }
    assert forall|r: int| 0 <= r < rows.len() implies #[trigger] kept(fs, pre, rows, r, out) by {
        lemma_onto(ix, rows.len() as int, r);
        let p = choose|p: int| 0 <= p < ix.len() && #[trigger] ix[p] == r;
        assert(earlier(fs, rows, ix, m, p));
        let k = row_key(fs, rows[r]);
        let q = choose|q: int| 0 <= q <= p && #[trigger] ix[q] == m[k];
        assert(m.dom().contains(k)); lemma_listed::<&'b str, u32>(e, m, k);
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k;
        assert(out[i] == m[k] && out[i] == ix[q]);
        let v = versions(fs, pre, rows);
        if q < p { assert(lex(v[ix[p] as int], v[ix[q] as int]) != Ordering::Greater); } else { lemma_lex_same(v[r]); }
        assert(not_newer(fs, pre, rows, r, out[i] as int));
    }
}
/// as many different numbers below n as there are reach each of them
pub proof fn lemma_onto(ix: Seq<u32>, n: int, r: int) requires ix.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] ix[i]) < n, forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] ix[i]) != (#[trigger] ix[j]), 0 <= r < n
    ensures exists|p: int| 0 <= p < n && #[trigger] ix[p] == r
{
    let s = ix.map_values(|x: u32| x as int);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(ix[i] != ix[j]); } else { assert(ix[j] != ix[i]); } } }
    s.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(s.to_set().subset_of(all)) by { assert forall|x: int| s.to_set().contains(x) implies all.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(ix[i] < n); } }
    vstd::set_lib::lemma_subset_equality(s.to_set(), all);
    assert(s.to_set().contains(r));
    let p = choose|p: int| 0 <= p < s.len() && s[p] == r; assert(ix[p] == r);
}
pub broadcast axiom fn ax_cell_order_same(a: Cell) ensures #[trigger] cell_order(a, a) == Ordering::Equal;
pub proof fn lemma_lex_same(a: Row) ensures lex(a, a) == Ordering::Equal decreases a.len() { if a.len() > 0 { if a[0] is Some { ax_cell_order_same(a[0]->Some_0); } lemma_lex_same(a.drop_first()); } }
/// the map holds, for the record of the p-th row in order, a row no later in order
pub open spec fn earlier(fs: Seq<Field>, rows: Seq<Row>, ix: Seq<u32>, m: Map<Seq<char>, u32>, p: int) -> bool { let k = row_key(fs, rows[ix[p] as int]); m.dom().contains(k) && exists|q: int| 0 <= q <= p && #[trigger] ix[q] == m[k] }
//@fn crates/core/src/merge/record_merger.rs select_columns
@spec
    ensures match ret { Ok(b) => b.fs().len() == schema.v.fs().len() && b.rows() == named_rows(schema.v.fs(), *batch), Err(_) => lacks_column(schema.v.fs(), *batch) }
@start
    proof { assert forall|ix: Seq<usize>| ix.len() == schema.v.fs().len() && (forall|k: int| 0 <= k < ix.len() ==> #[trigger] ix[k] == find(batch.fs(), schema.v.fs()[k].nm())) implies #[trigger] projected(batch.rows(), ix) == named_rows(schema.v.fs(), *batch) by { lemma_projected(schema.v.fs(), *batch, ix); } }
@closure 0
    |$1: &Field| -> (r: Result<usize>) ensures match r { Ok(i) => i == find(batch.fs(), $1.nm()) && i < batch.fs().len(), Err(_) => find(batch.fs(), $1.nm()) >= batch.fs().len() }
//@end
//@fn crates/core/src/merge/record_merger.rs RecordMerger::merge_record_batches
@loops 1
@spec
    requires fits(self.hudi_configs.v, schema.v.fs(), batches@)
    ensures match ret { Ok(b) => merge_gives(self.hudi_configs.v, schema.v.fs(), batches@, b.rows()), Err(_) => unmergeable(self.hudi_configs.v, schema.v, batches@) }
@start
    let ghost fs = schema.v.fs(); let ghost all = all_rows(schema.v.fs(), batches@); let ghost from = batches@; let ghost h = self.hudi_configs.v;
    proof {
        lemma_strategy_names();
        assert forall|to: Seq<RecordBatch>| selected(fs, from, to) implies #[trigger] flat(to) == all by { lemma_selected(fs, from, to); }
        assert forall|to: Seq<RecordBatch>| selected(fs, from, to) && #[trigger] some_unfit(schema.v, to) implies unmergeable(h, schema.v, from) by { }
        assert(forall|pre: Seq<char>| latest(fs, pre, Seq::<Row>::empty(), Seq::<u32>::empty())); assert(picked(Seq::<Row>::empty(), Seq::<u32>::empty()) =~= Seq::<Row>::empty());
        assert forall|b: RecordBatch| b.rows().len() == 0 implies #[trigger] b.rows() == Seq::<Row>::empty() by { assert(b.rows() =~= Seq::<Row>::empty()); }
        assert(latest(fs, Seq::<char>::empty(), Seq::<Row>::empty(), Seq::<u32>::empty()));
    }
@closure 0
    |$1: &RecordBatch| -> (r: Result<RecordBatch>) ensures match r { Ok(b) => b.fs().len() == fs.len() && b.rows() == named_rows(fs, *$1), Err(_) => lacks_column(fs, *$1) }
@loop 0 pre
    let ghost ix = sorted_indices.v@; let ghost mut n: int = 0; let ghost pre = precombine_field@;
    let ghost ver = versions(fs, pre, all);
    proof {
        let a = seq![precombine_array, commit_seqno_array];
        assert(key_rows(a).len() == ver.len());
        assert forall|i: int| 0 <= i < ver.len() implies key_rows(a)[i] == #[trigger] ver[i] by { assert(keys_of(a, i) =~= version(fs, pre, all[i])); }
        assert(key_rows(a) =~= ver);
        assert forall|x: Seq<ArrayRef>| x.len() == 2 && x[0] == precombine_array && x[1] == commit_seqno_array implies #[trigger] key_rows(x) == ver by { assert(x =~= a); }
        assert(orders(ix, ver, true));
    }
@loop 0
    invariant 0 <= n <= ix.len(), vx_it0@.len() == ix.len() - n, forall|j: int| 0 <= j < vx_it0@.len() ==> *(#[trigger] vx_it0@[j]) == ix[n + j],
        concat_batch.rows() == all, forall|i: int| 0 <= i < ix.len() ==> (#[trigger] ix[i]) < all.len(),
        record_key_array.strs().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] record_key_array.strs()[i]) == row_key(fs, all[i]),
        forall|k: Seq<char>| #[trigger] keys_and_latest_indices@.dom().contains(k) ==> exists|p: int| 0 <= p < n && #[trigger] ix[p] == keys_and_latest_indices@[k] && row_key(fs, all[ix[p] as int]) == k,
        forall|p: int| 0 <= p < n ==> earlier(fs, all, ix, keys_and_latest_indices@, p),
    ensures n == ix.len()
    decreases vx_it0@.len()
@loop 0 start
    let ghost m0 = keys_and_latest_indices@;
    proof { assert(*i == ix[n]); n = n + 1; assert forall|p: int| 0 <= p < n - 1 implies #[trigger] earlier(fs, all, ix, m0, p) by {} }
@loop 0 end
    proof { let m1 = keys_and_latest_indices@; assert forall|p: int| 0 <= p < n implies #[trigger] earlier(fs, all, ix, m1, p) by { if p < n - 1 { assert(earlier(fs, all, ix, m0, p)); } else { assert(ix[p] == m1[row_key(fs, all[ix[p] as int])]); } } }
@loop 0 post
    let ghost m = keys_and_latest_indices@;
    proof {
        assert forall|e: Seq<(&&str, &u32)>, out: Seq<u32>| #![trigger lists_all::<&str, u32>(e, m), picked(all, out)] lists_all::<&str, u32>(e, m) && values_of(e, out) implies latest(fs, pre, all, out) by { lemma_latest(fs, pre, all, ix, m, e, out); }
    }
//@end
}
