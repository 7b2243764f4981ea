//! C11 merging record batches.
use crate::rt::*;
use arrow_array::{Array, ArrayRef, BooleanArray, Date32Array, Decimal128Array, Float64Array, Int32Array, Int64Array, RecordBatch, StringArray, TimestampMicrosecondArray};
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use hudi_core::config::HudiConfigs;
use hudi_core::merge::record_merger::RecordMerger;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

/// the ordering value of a row: none is least
type Ord_ = Option<i64>;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Row { key: String, ord: Ord_, seq: String, uid: i64 }
const TYPES: usize = 8;
/// ordering values as a column of a type, by a monotone map from small integers
fn column(ty: usize, v: &[Ord_]) -> (DataType, ArrayRef) {
    match ty {
        0 => (DataType::Int32, Arc::new(Int32Array::from(v.iter().map(|x| x.map(|x| x as i32)).collect::<Vec<_>>()))),
        1 => (DataType::Int64, Arc::new(Int64Array::from(v.iter().map(|x| x.map(|x| x * 3_000_000_000)).collect::<Vec<_>>()))),
        2 => (DataType::Utf8, Arc::new(StringArray::from(v.iter().map(|x| x.map(|x| format!("{:03}", x + 50))).collect::<Vec<_>>()))),
        3 => (DataType::Float64, Arc::new(Float64Array::from(v.iter().map(|x| x.map(|x| x as f64 / 7.0)).collect::<Vec<_>>()))),
        4 => (DataType::Date32, Arc::new(Date32Array::from(v.iter().map(|x| x.map(|x| x as i32 * 400)).collect::<Vec<_>>()))),
        5 => (DataType::Timestamp(TimeUnit::Microsecond, None), Arc::new(TimestampMicrosecondArray::from(v.iter().map(|x| x.map(|x| x * 1_000_001)).collect::<Vec<_>>()))),
        6 => (DataType::Decimal128(20, 2), Arc::new(Decimal128Array::from(v.iter().map(|x| x.map(|x| x as i128 * 10_i128.pow(17))).collect::<Vec<_>>()).with_precision_and_scale(20, 2).unwrap())),
        _ => (DataType::Boolean, Arc::new(BooleanArray::from(v.iter().map(|x| x.map(|x| x > 0)).collect::<Vec<_>>()))),
    }
}
fn batch(rows: &[Row], ty: usize, cols: &[&str], nullable: bool) -> RecordBatch {
    let mut f = vec![];
    let mut c: Vec<ArrayRef> = vec![];
    for n in cols {
        let (t, a): (DataType, ArrayRef) = match *n {
            "ord" => column(ty, &rows.iter().map(|r| r.ord).collect::<Vec<_>>()),
            "_hoodie_commit_seqno" => (DataType::Utf8, Arc::new(StringArray::from(rows.iter().map(|r| r.seq.clone()).collect::<Vec<_>>()))),
            "_hoodie_record_key" => (DataType::Utf8, Arc::new(StringArray::from(rows.iter().map(|r| r.key.clone()).collect::<Vec<_>>()))),
            "a" => (DataType::Int64, Arc::new(Int64Array::from(rows.iter().map(|r| r.uid).collect::<Vec<_>>()))),
            "b" => (DataType::Int64, Arc::new(Int64Array::from(rows.iter().map(|r| if r.uid % 5 == 0 { None } else { Some(-r.uid) }).collect::<Vec<_>>()))),
            "c" => (DataType::Utf8, Arc::new(StringArray::from(rows.iter().map(|r| format!("s{}", r.uid)).collect::<Vec<_>>()))),
            _ => (DataType::Int64, Arc::new(Int64Array::from(vec![9i64; rows.len()]))),
        };
        f.push(Field::new(*n, t, nullable)); c.push(a);
    }
    RecordBatch::try_new(Arc::new(Schema::new(f)), c).unwrap()
}
/// the uid of every row, when all its columns are of one row
fn uids(b: &RecordBatch, by: &BTreeMap<i64, Row>, ty: usize) -> Result<Vec<i64>, String> {
    let l = |n: &str| b.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<Int64Array>().cloned()).ok_or(format!("column {n}"));
    let s = |n: &str| b.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<StringArray>().cloned()).ok_or(format!("column {n}"));
    let (a, bb, c, k, q) = (l("a")?, l("b")?, s("c")?, s("_hoodie_record_key")?, s("_hoodie_commit_seqno")?);
    let mut out = vec![];
    for i in 0..b.num_rows() {
        let u = a.value(i);
        let r = by.get(&u).ok_or(format!("a row {u} that was not given"))?;
        let o = column(ty, &[r.ord]).1;
        let b_ok = if u % 5 == 0 { bb.is_null(i) } else { bb.is_valid(i) && bb.value(i) == -u };
        if !(b_ok && c.value(i) == format!("s{u}") && k.value(i) == r.key && q.value(i) == r.seq && b.column_by_name("ord").ok_or("column ord")?.slice(i, 1).to_data() == o.to_data()) { return Err(format!("row {i} mixes values of several rows")); }
        out.push(u);
    }
    Ok(out)
}
pub fn c11(cx: &mut Ctx) {
    cx.rule("up to 60 rows over few keys with ordering values of eight types (nulls, ties), split at random into batches, some with their columns reordered or added to, merged under both strategies; non-trivial = a key that occurs twice");
    let mut r = cx.rng(11);
    for round in 0..if cx.thorough { 300_000 } else { 15_000 } {
        if cx.done() { return; }
        let ty = r.below(TYPES);
        let n = match r.below(5) { 0 => r.below(3), 4 => r.below(61), _ => r.below(12) };
        let keys = r.range(1, 1 + n);
        let range = [1, 3, 40][r.below(3)];
        let rows: Vec<Row> = (0..n).map(|i| Row {
            key: ["", "a", "k", "é", "a:1"][r.below(5)].to_string() + &r.below(keys).to_string(),
            ord: if r.chance(1, 8) { None } else { let x = r.below(range) as i64 - range as i64 / 2; Some(if ty == 7 { (x > 0) as i64 } else { x }) },
            seq: if r.chance(1, 3) { "20240101000000000_0_1".into() } else { format!("2024010100000{}000_{}_{i:04}", r.below(3), r.below(2)) },
            uid: i as i64 * 3 + 1,
        }).collect();
        let by: BTreeMap<i64, Row> = rows.iter().map(|x| (x.uid, x.clone())).collect();
        let cols = ["_hoodie_commit_seqno", "_hoodie_record_key", "a", "b", "c", "ord"];
        let mut main = cols.to_vec();
        r.shuffle(&mut main);
        let schema = batch(&[], ty, &main, true).schema();
        let mut batches = vec![];
        let mut at = 0;
        let mut shape = vec![];
        while at < n || r.chance(1, 6) {
            let k = r.below(n - at + 1).min(if r.chance(1, 2) { 3 } else { n });
            let mut cs = main.clone();
            if r.chance(1, 6) { r.shuffle(&mut cs); }
            if r.chance(1, 8) { let i = r.below(cs.len() + 1); cs.insert(i, "extra"); }
            shape.push((k, cs.clone()));
            batches.push(batch(&rows[at..at + k], ty, &cs, r.chance(1, 2) || !rows[at..at + k].iter().all(|x| x.ord.is_some() && x.uid % 5 != 0)));
            at += k;
        }
        let append = r.chance(1, 4);
        let conf = HudiConfigs::new([("hoodie.table.precombine.field", "ord"), ("hoodie.table.record.merge.strategy", if append { "append_only" } else { "overwrite_with_latest" })]);
        let case = json!({"rows": rows.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "ordering type": ty, "columns": main, "batches": shape, "append_only": append});
        let mut groups: BTreeMap<&str, Vec<&Row>> = BTreeMap::new();
        for x in &rows { groups.entry(&x.key).or_default().push(x); }
        cx.case(groups.values().any(|g| g.len() > 1), round, || case.clone());
        let got = guard(|| RecordMerger::new(Arc::new(conf)).merge_record_batches(&schema, &batches).map_err(|e| e.to_string()));
        let verdict: Result<(), String> = match &got {
            Ok(Ok(b)) if b.schema() == schema => uids(b, &by, ty).and_then(|mut u| {
                u.sort();
                if append { let mut all: Vec<i64> = rows.iter().map(|x| x.uid).collect(); all.sort(); return if u == all { Ok(()) } else { Err("rows are lost or repeated".into()) }; }
                if u.len() != groups.len() { return Err(format!("{} rows for {} keys", u.len(), groups.len())); }
                for g in groups.values() {
                    let best = g.iter().map(|x| (x.ord, &x.seq)).max().unwrap();
                    if u.iter().filter(|x| g.iter().any(|y| y.uid == **x && (y.ord, &y.seq) == best)).count() != 1 { return Err(format!("key {:?} is not represented by its newest row", g[0].key)); }
                }
                Ok(())
            }),
            x => Err(format!("{:?}", x.as_ref().map(|y| y.as_ref().map(|b| b.schema().to_string())))),
        };
        if let Err(e) = verdict { cx.violation("merge", "merging does not keep exactly the newest row of each key, whole", json!({"case": case, "what": e})); }
    }
}
