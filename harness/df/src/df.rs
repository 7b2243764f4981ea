//! C15 predicates pushed to the storage scan.
use crate::rt::*;
use crate::table::{enc, parquet_bytes, stamp, Blk, Fg, Inst, Log, Row, Slice, Tbl, Write};
use arrow_array::*;
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use datafusion::common::ScalarValue as S;
use datafusion::datasource::TableProvider;
use datafusion::logical_expr::{col, BinaryExpr, Expr, Operator as Op, TableProviderFilterPushDown as P};
use datafusion::prelude::SessionContext;
use hudi_datafusion::HudiDataSource;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

const OPS: [Op; 6] = [Op::Eq, Op::NotEq, Op::Lt, Op::LtEq, Op::Gt, Op::GtEq];
fn types() -> Vec<DataType> {
    vec![DataType::Utf8, DataType::Int32, DataType::Int64, DataType::Date32, DataType::Boolean, DataType::Float64, DataType::Timestamp(TimeUnit::Microsecond, None), DataType::Decimal128(10, 2), DataType::Binary]
}
/// a value of the type and the text a writer puts in the partition path
fn cell(r: &mut Rng, t: &DataType, urlenc: bool) -> (S, String) {
    if r.chance(1, 14) { return (S::try_from(t).unwrap(), "__HIVE_DEFAULT_PARTITION__".into()); }
    let day = |d: i32| (chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Days::new(d as u64)).to_string();
    match t {
        DataType::Utf8 => { let s = if urlenc { *r.pick(&["a", "b", "a/b", "x=y", "50%", "é", "a b", "10", "9", "%41", "#x", "A"]) } else { *r.pick(&["a", "b", "x=y", "é", "a b", "10", "9", "B", "50%", "%41"]) }; (S::Utf8(Some(s.into())), s.into()) }
        DataType::Int32 => { let v = *r.pick(&[-3, 0, 1, 9, 10, 2024]); (S::Int32(Some(v)), v.to_string()) }
        DataType::Int64 => { let v = *r.pick(&[-30, 0, 1, 9, 10, 5_000_000_000]); (S::Int64(Some(v)), v.to_string()) }
        DataType::Date32 => { let v = *r.pick(&[0, 9, 10, 364, 365, 19_700, 19_701]); (S::Date32(Some(v)), day(v)) }
        DataType::Boolean => { let v = r.chance(1, 2); (S::Boolean(Some(v)), v.to_string()) }
        DataType::Float64 => { let v = *r.pick(&[-1.5, 0.0, 0.25, 9.0, 10.0, 1e20]); (S::Float64(Some(v)), v.to_string()) }
        DataType::Timestamp(..) => { let v = *r.pick(&[0i64, 1_000_000, 1_704_067_200_000_000, 1_704_067_200_000_001]); (S::TimestampMicrosecond(Some(v), None), v.to_string()) }
        DataType::Binary => { let s = *r.pick(&["a", "ab", "b", "6162", "6", "a longer text", "a longer text 2"]); (S::Binary(Some(s.as_bytes().to_vec())), s.into()) }
        _ => { let v = *r.pick(&[-150i128, 0, 5, 150, 1000]); (S::Decimal128(Some(v), 10, 2), format!("{}{}.{:02}", if v < 0 { "-" } else { "" }, v.abs() / 100, v.abs() % 100)) }
    }
}
struct Tab { dir: Scratch, cols: Vec<(String, DataType)>, parts: usize, all: RecordBatch, paths: Vec<String> }
fn table(r: &mut Rng) -> Tab {
    let dir = Scratch::new("c15");
    let (hive, urlenc) = (r.chance(1, 2), r.chance(1, 2));
    let ty = types();
    let np = r.range(0, 2);
    let names = ["p", "yr", "v", "w", "x"];
    let cols: Vec<(String, DataType)> = (0..np + 3).map(|i| (names[i].to_string(), if i < np && r.chance(2, 5) { DataType::Utf8 } else if i < np && r.chance(1, 8) { DataType::Binary } else { r.pick(&ty).clone() })).collect();
    let mut fields = vec![Field::new("id", DataType::Int64, false)];
    fields.extend(cols.iter().map(|(n, t)| Field::new(n, t.clone(), true)));
    let schema = Arc::new(Schema::new(fields));
    let mut groups: BTreeMap<String, Vec<S>> = BTreeMap::new();
    for _ in 0..if np == 0 { 1 } else { r.range(2, 6) } {
        let vs: Vec<(S, String)> = cols[..np].iter().map(|(_, t)| cell(r, t, urlenc)).collect();
        let path = vs.iter().zip(&cols).map(|((_, s), (n, _))| { let s = if urlenc { enc(s) } else { s.clone() }; if hive { format!("{n}={s}") } else { s } }).collect::<Vec<_>>().join("/");
        groups.insert(path, vs.into_iter().map(|x| x.0).collect());
    }
    dir.write(".hoodie/hoodie.properties", format!("hoodie.table.name=t\nhoodie.table.type=COPY_ON_WRITE\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.base.file.format=PARQUET\nhoodie.datasource.write.hive_style_partitioning={hive}\nhoodie.datasource.write.partitionpath.urlencode={urlenc}\nhoodie.datasource.write.drop.partition.columns=false\nhoodie.table.recordkey.fields=id\nhoodie.populate.meta.fields=false\n{}",
        if np > 0 { format!("hoodie.table.partition.fields={}\nhoodie.table.keygenerator.class=org.apache.hudi.keygen.ComplexKeyGenerator\n", cols[..np].iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(",")) } else { "hoodie.table.keygenerator.class=org.apache.hudi.keygen.NonpartitionedKeyGenerator\n".into() }).as_bytes());
    let mut id = 0i64;
    let mut all = vec![];
    let ncommits = r.range(1, 2);
    let mut live: BTreeMap<(String, usize), RecordBatch> = BTreeMap::new();
    for c in 0..ncommits {
        let ts = stamp(1000 + c as u64 * 60_000, false);
        let mut pw = serde_json::Map::new();
        for (path, pv) in &groups {
            for f in 0..r.range(1, 2) {
                if c > 0 && r.chance(1, 2) && !live.is_empty() { continue; }
                let n = r.range(1, 4);
                let rows: Vec<Vec<S>> = (0..n).map(|_| { id += 1; let mut v = vec![S::Int64(Some(id))]; v.extend(pv.iter().cloned()); for (_, t) in &cols[np..] { v.push(cell(r, t, false).0); } v }).collect();
                let arrs = (0..schema.fields().len()).map(|i| S::iter_to_array(rows.iter().map(|x| x[i].clone())).unwrap()).collect();
                let b = RecordBatch::try_new(schema.clone(), arrs).unwrap();
                let name = format!("f{f}-{}_0-1-{c}_{ts}.parquet", path.len());
                let rel = if path.is_empty() { name } else { format!("{path}/{name}") };
                dir.write(&rel, &parquet_bytes(&[b.clone()], schema.clone()));
                if !path.is_empty() { dir.write(&format!("{path}/.hoodie_partition_metadata"), b"commitTime=0\n"); }
                live.insert((path.clone(), f), b);
                pw.entry(path.clone()).or_insert_with(|| json!([])).as_array_mut().unwrap().push(json!({"fileId": format!("f{f}-{}", path.len()), "path": rel, "prevCommit": "null", "numWrites": n, "partitionPath": path}));
            }
        }
        for s in ["requested", "inflight"] { dir.write(&format!(".hoodie/{ts}.commit.{s}").replace("commit.inflight", "inflight"), b""); }
        dir.write(&format!(".hoodie/{ts}.commit"), json!({"partitionToWriteStats": pw, "compacted": false, "extraMetadata": {}, "operationType": "UPSERT"}).to_string().as_bytes());
    }
    for b in live.values() { all.push(b.clone()); }
    let all = arrow::compute::concat_batches(&schema, &all).unwrap();
    Tab { dir, cols, parts: np, all, paths: groups.into_keys().collect() }
}
fn bin(l: Expr, op: Op, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r))) }
fn leaf(r: &mut Rng, t: &Tab) -> Expr {
    let i = if t.parts > 0 && r.chance(3, 5) { r.below(t.parts) } else { r.below(t.cols.len()) };
    let (n, ty) = &t.cols[i];
    let lit = Expr::Literal(if r.chance(2, 3) { S::try_from_array(t.all.column(i + 1), r.below(t.all.num_rows())).unwrap() } else { cell(r, ty, true).0 });
    let op = *r.pick(&OPS);
    if *ty == DataType::Boolean && r.chance(1, 4) { return col(n); }
    match r.below(12) { 0 | 1 | 2 | 3 => bin(lit, op, col(n)), 4 => col(n).is_null(), 5 => bin(col(n), Op::IsDistinctFrom, lit), 6 => { let l2 = Expr::Literal(cell(r, ty, true).0); col(n).in_list(vec![lit, l2], r.chance(1, 2)) } 7 => bin(col(n), op, col(n)), _ => bin(col(n), op, lit) }
}
fn tree(r: &mut Rng, t: &Tab, d: usize) -> Expr {
    match if d == 0 { 9 } else { r.below(10) } { 0 | 1 => Expr::Not(Box::new(tree(r, t, d - 1))), 2 => { let a = tree(r, t, d - 1); bin(a, Op::And, tree(r, t, d - 1)) } 3 => { let a = tree(r, t, d - 1); bin(a, Op::Or, tree(r, t, d - 1)) } _ => leaf(r, t) }
}
fn ids(bs: &[RecordBatch]) -> Vec<i64> {
    let mut v: Vec<i64> = bs.iter().flat_map(|b| { let a = b.column_by_name("id").unwrap().as_any().downcast_ref::<Int64Array>().unwrap().clone(); a.values().to_vec() }).collect();
    v.sort();
    v
}
pub fn c15(cx: &mut Ctx) {
    cx.rule("tables of one or two commits over zero to two partition columns of nine types (values a url escapes, nulls), one to three predicate trees over all columns, literals on either side; the query runs on the table and on the same rows in memory, and the storage scan alone must keep every row that satisfies the predicates; non-trivial = some row satisfies the predicates and some does not");
    mor(cx);
    let mut r = cx.rng(15);
    let n = if cx.thorough { 20_000 } else { 400 };
    for _ in 0..n {
        if cx.done() { return; }
        let t = table(&mut r);
        let k = r.below(4).to_string();
        let show = json!({"columns": t.cols.iter().map(|(n, t)| format!("{n}: {t}")).collect::<Vec<_>>(), "partition_columns": t.parts, "paths": t.paths});
        let ctx = SessionContext::new();
        let src = match guard(|| cx.rt.block_on(HudiDataSource::new_with_options(&t.dir.uri(), [("hoodie.read.input.partitions", k.as_str())])).map_err(|e| e.to_string())) { Ok(Ok(s)) => Arc::new(s), e => { cx.violation("open", "a table does not open", json!({"table": show, "error": format!("{:?}", e.map(|x| x.is_ok()))})); continue; } };
        for _ in 0..8 {
            let es: Vec<Expr> = (0..r.range(1, 3)).map(|_| { let d = r.below(3); tree(&mut r, &t, d) }).collect();
            let whole = es.iter().cloned().reduce(|a, b| a.and(b)).unwrap();
            let mem = cx.rt.block_on(async { ctx.read_batch(t.all.clone())?.filter(whole.clone())?.collect().await });
            let Ok(mem) = mem else { continue; };
            let want = ids(&mem);
            let case = json!({"table": show, "input_partitions": k, "predicates": es.iter().map(|e| e.to_string()).collect::<Vec<_>>()});
            cx.case(!want.is_empty() && want.len() < t.all.num_rows(), case.to_string(), || case.clone());
            // the query
            let lim = r.chance(1, 4).then(|| r.below(4));
            let got = guard(|| cx.rt.block_on(async { let d = ctx.read_table(src.clone())?.filter(whole.clone())?; let d = if let Some(l) = lim { d.limit(0, Some(l))? } else { d }; d.select_columns(&["id"])?.collect().await }).map(|b| ids(&b)).map_err(|e| e.to_string()));
            let ok = match (&got, lim) { (Ok(Ok(g)), None) => *g == want, (Ok(Ok(g)), Some(l)) => g.len() == want.len().min(l) && g.iter().all(|x| want.contains(x)), _ => false };
            if !ok { cx.violation(if matches!(got, Ok(Ok(_))) { "rows" } else { "query-fails" }, "a query does not return the table's rows that satisfy its predicate", json!({"case": case, "limit": lim, "expected": want, "got": format!("{got:?}")})); }
            // the storage scan alone, with the predicates as they are
            let rs: Vec<&Expr> = es.iter().collect();
            let exact = guard(|| src.supports_filters_pushdown(&rs).map(|v| (v.len(), v.iter().all(|x| *x == P::Exact))).map_err(|e| e.to_string()));
            let got = guard(|| cx.rt.block_on(async { let st = ctx.state(); let pl = src.scan(&st, None, &es, None).await?; datafusion::physical_plan::collect(pl, ctx.task_ctx()).await }).map(|b| ids(&b)).map_err(|e| e.to_string()));
            let all = ids(&[t.all.clone()]);
            let ok = match (&got, &exact) { (Ok(Ok(g)), Ok(Ok((n, x)))) => *n == es.len() && g.windows(2).all(|w| w[0] < w[1]) && g.iter().all(|i| all.contains(i)) && want.iter().all(|i| g.contains(i)) && (!*x || *g == want), _ => false };
            if !ok { cx.violation(if matches!(got, Ok(Ok(_))) { "scan" } else { "scan-fails" }, "the storage scan loses rows that satisfy the predicates, or returns others than the table's", json!({"case": case, "support": format!("{exact:?}"), "satisfying": want, "got": format!("{got:?}")})); }
        }
    }
}
/// a merge-on-read table: a base file with a log file of updates
fn mor(cx: &mut Ctx) {
    let mut t = Tbl::new("c15m");
    t.mor = true;
    t.fields = vec![]; t.schema_order = vec![]; t.parts = vec![vec![]];
    t.write_props();
    let mut r = cx.rng(155);
    let (t1, t2) = (stamp(0, false), stamp(60_000, false));
    let row = |ts: &str, v: i32| Row { key: "k".into(), ts: v as i64, val: v, commit: ts.into(), seq: format!("{ts}_0_0") };
    let base = format!("f0-0_0-1-1_{t1}.parquet");
    t.put(0, &base, &t.parquet(&[row(&t1, 1)], 0, &base));
    let l = Log { name: format!(".f0-0_{t1}.log.1_0-2-1"), version: 1, instant: t2.clone(), blocks: vec![Blk { instant: t2.clone(), rows: vec![row(&t2, 2)], avro: false, dead: false }] };
    t.put(0, &l.name, &t.log_bytes(&l, 0));
    t.fgs.push(Fg { part: 0, id: "f0-0".into(), slices: vec![Slice { commit: t1.clone(), base, rows: vec![row(&t1, 1)], logs: vec![l] }], replaced: None });
    for (i, ts) in [&t1, &t2].iter().enumerate() {
        t.insts.push(Inst { ts: ts.to_string(), action: "deltacommit", completed: true, writes: vec![Write { fg: 0, slice: 0, log: (i == 1).then_some(0), from: 0 }], replaces: vec![] });
        t.write_instant(i, &mut r);
    }
    let ctx = SessionContext::new();
    let got = guard(|| cx.rt.block_on(async { let s = Arc::new(HudiDataSource::new(&t.dir.uri()).await?); ctx.read_table(s)?.select_columns(&["val"])?.collect().await }).map(|b| b.iter().flat_map(|b| b.column(0).as_any().downcast_ref::<Int32Array>().unwrap().values().to_vec()).collect::<Vec<i32>>()).map_err(|e| e.to_string()));
    match got { Ok(Ok(g)) if g == vec![2] => {}, g => cx.violation("mor-log-files", "a query on a merge-on-read table leaves out its log files", json!({"base": "k -> 1", "log": "k -> 2", "expected": [2], "got": format!("{g:?}")})) }
}
