//! C22: the schema a table reports.
use crate::rt::*;
use crate::table::*;
use arrow_array::RecordBatch;
use arrow_schema::{DataType, Field, Schema};
use serde_json::{json, Value};
use std::sync::Arc;

struct C { ts: String, meta: Value, op: Option<String>, action: &'static str, avro: Option<String>, names: Vec<Option<usize>>, wrote: bool, readable: bool }
/// Err(true): an error is due; the schemas allowed (by file), and whether an error is allowed
enum Want { Error, Files(Vec<usize>, bool) }

pub fn c22(cx: &mut Ctx) {
    cx.rule("generated histories whose commits write no file, log files only, or base files of different schemas, in several partitions, with and without a recorded Avro schema; non-trivial = the latest commit is not the one whose files give the schema, or some completed commit wrote base files of a schema of its own");
    let mut r = cx.rng(22);
    let n = if cx.thorough { 8000 } else { 500 };
    for round in 0..n {
        if cx.done() { return; }
        let mut t = Tbl::new("c22");
        t.mor = true;
        let nf = r.below(4);
        let names = ["region", "city", "day"];
        t.fields = (0..nf).map(|i| (names[i].to_string(), Ty::Str)).collect();
        r.shuffle(&mut t.fields);
        t.write_props();
        let odd = ["", "=x y", ".log.1", ".parquet", "_0-1-1_20200101000000000.parquet", "%20z", "é", ".log.1_0-1-1"];
        let parts: Vec<String> = if nf == 0 { vec![String::new()] } else { ["a", "b", "c"].iter().map(|c| (0..nf).map(|i| if r.chance(1, 6) { format!("{c}{i}{}", r.pick(&odd)) } else { c.to_string() }).collect::<Vec<_>>().join("/")).collect() };
        let mut schemas: Vec<Vec<(String, bool)>> = vec![];
        let mut cs: Vec<C> = vec![];
        let k = r.below(6);
        for i in 0..k {
            let ts = stamp(1000 * i as u64 + r.below(3) as u64, false);
            let action = *r.pick(&["commit", "deltacommit", "replacecommit"]);
            let kind = r.below(8);
            let mut ps = serde_json::Map::new();
            let mut files: Vec<Option<usize>> = vec![];
            let mut wrote = false;
            if kind > 0 {
                for p in &parts {
                    if r.chance(1, 3) { if r.chance(1, 2) { ps.insert(p.clone(), json!([])); } continue; }
                    wrote = true;
                    let mut stats = vec![];
                    for j in 0..r.range(1, 2) {
                        // a base file with a schema of its own
                        let base = format!("f{i}{j}{}-0_0-1-1_{ts}.parquet", schemas.len());
                        let rel = if p.is_empty() { base.clone() } else { format!("{p}/{base}") };
                        let mut cols: Vec<(String, bool)> = vec![(format!("c{}", schemas.len()), r.chance(1, 2))];
                        for f in names.iter().take(nf) { if r.chance(5, 6) { cols.push((f.to_string(), r.chance(1, 2))); } }
                        r.shuffle(&mut cols);
                        let sc = Arc::new(Schema::new(cols.iter().map(|(n, b)| Field::new(n, if *b { DataType::Utf8 } else { DataType::Int64 }, true)).collect::<Vec<_>>()));
                        let missing = r.chance(1, 40);
                        if !missing { t.dir.write(&rel, &parquet_bytes(&[RecordBatch::new_empty(sc.clone())], sc.clone())); }
                        let id = schemas.len();
                        schemas.push(cols);
                        let log = r.chance(1, 2);
                        let mut st = json!({"fileId": format!("f{i}{j}{id}-0"), "path": rel, "partitionPath": p});
                        let mut named = !missing;
                        if log {
                            st["path"] = json!(if p.is_empty() { format!(".f{i}{j}{id}-0_{ts}.log.1_0-1-1") } else { format!("{p}/.f{i}{j}{id}-0_{ts}.log.1_0-1-1") });
                            if r.chance(1, 12) { named = false; } else { st["baseFile"] = json!(base); }
                        } else if r.chance(1, 2) { st["baseFile"] = json!("other-0_0-1-1_20200101000000000.parquet"); }
                        if r.chance(1, 40) { st["path"] = Value::Null; named = false; }
                        if j == 0 { files.push(if named { Some(id) } else { None }); }
                        stats.push(st);
                    }
                    ps.insert(p.clone(), Value::Array(stats));
                }
            }
            let avro = if r.chance(4, 5) { Some(format!("{{\"type\":\"record\",\"name\":\"r{i}\",\"fields\":[]}}")) } else { None };
            let op = match r.below(8) { 0 => None, 1..=3 => Some("cluster".to_string()), 4 => Some("clustered".into()), 5 => Some("CLUSTER".into()), _ => Some("UPSERT".to_string()) };
            let mut meta = json!({"compacted": false});
            if kind != 1 || wrote { meta["partitionToWriteStats"] = Value::Object(ps); } // else: none recorded at all
            if let Some(a) = &avro { meta["extraMetadata"] = json!({"schema": a, "other": "x"}); } else if r.chance(1, 2) { meta["extraMetadata"] = json!({"other": "{}"}); }
            if let Some(o) = &op { meta["operationType"] = json!(o); }
            let readable = !r.chance(1, 40);
            cs.push(C { ts, meta, op, action, avro, names: files, wrote, readable });
        }
        for c in &cs { t.dir.write(&format!(".hoodie/{}.{}", c.ts, c.action), if c.readable { serde_json::to_vec(&c.meta).unwrap() } else { b"{ not json".to_vec() }.as_slice()); }
        // pending instants, later and in between, are no commits
        for (i, s) in ["commit.requested", "inflight", "deltacommit.inflight", "replacecommit.requested"].iter().enumerate() { if r.chance(1, 2) { t.dir.write(&format!(".hoodie/{}.{s}", stamp(900 * r.below(8) as u64 + 500 + i as u64, false)), b"{\"partitionToWriteStats\":{\"z\":[{\"path\":\"z/none.parquet\"}]}}"); } }
        let case = || json!({"partition fields": t.fields.iter().map(|f| &f.0).collect::<Vec<_>>(), "commits": cs.iter().map(|c| json!({"ts": c.ts, "action": c.action, "readable": c.readable, "metadata": c.meta})).collect::<Vec<_>>(), "file schemas": schemas});
        // what is due
        let mut want = Want::Error;
        for c in cs.iter().rev() {
            if !c.readable { break; }
            if c.wrote { let ok: Vec<usize> = c.names.iter().flatten().copied().collect(); let err = c.names.iter().any(|x| x.is_none()); want = if ok.is_empty() { Want::Error } else { Want::Files(ok, err) }; break; }
        }
        let writers = cs.iter().filter(|c| c.wrote).count();
        cx.case(writers >= 2 || cs.last().is_some_and(|c| !c.wrote), round, || case());
        let table = match t.open(cx) { Ok(x) => x, Err(e) => { cx.violation("open", "a table does not open", json!({"case": case(), "error": e})); continue; } };
        let shape = |s: &Schema| s.fields().iter().map(|f| (f.name().clone(), *f.data_type() == DataType::Utf8)).collect::<Vec<_>>();
        let got = guard(|| cx.rt.block_on(table.get_schema()).map_err(|e| e.to_string()));
        let tell = |g: &Result<Result<Schema, String>, String>| match g { Ok(Ok(s)) => format!("{:?}", shape(s)), Ok(Err(e)) => format!("error: {e}"), Err(p) => format!("panic: {p}") };
        let fine = match (&want, &got) { (_, Err(_)) => false, (Want::Error, Ok(g)) => g.is_err(), (Want::Files(ok, _), Ok(Ok(s))) => ok.iter().any(|i| schemas[*i] == shape(s)), (Want::Files(_, err), Ok(Err(_))) => *err };
        if !fine { cx.violation("schema", "the schema of a table is not that of the files of its latest commit with files", json!({"case": case(), "expected": match &want { Want::Error => json!("an error"), Want::Files(f, _) => json!(f.iter().map(|i| &schemas[*i]).collect::<Vec<_>>()) }, "got": tell(&got)})); }
        // the partition columns, of the same schema
        let got_p = guard(|| cx.rt.block_on(table.get_partition_schema()).map_err(|e| e.to_string()));
        let pick = |i: usize| t.fields.iter().filter_map(|(n, _)| schemas[i].iter().find(|c| c.0 == *n)).cloned().collect::<Vec<_>>();
        let fine = match (&want, &got_p) { (_, Err(_)) => false, (Want::Error, Ok(g)) => g.is_err(), (Want::Files(ok, _), Ok(Ok(s))) => ok.iter().any(|i| pick(*i) == shape(s)), (Want::Files(_, err), Ok(Err(_))) => *err };
        if !fine { cx.violation("partition-schema", "the partition schema is not the configured partition fields of the table's schema, in their order", json!({"case": case(), "expected": match &want { Want::Error => json!("an error"), Want::Files(f, _) => json!(f.iter().map(|i| pick(*i)).collect::<Vec<_>>()) }, "got": tell(&got_p)})); }
        // the recorded Avro schema
        let due = cs.last().filter(|c| c.readable).and_then(|c| c.avro.clone());
        let got_a = guard(|| cx.rt.block_on(table.get_avro_schema()).map_err(|e| e.to_string()));
        if !match (&due, &got_a) { (_, Err(_)) => false, (Some(a), Ok(Ok(g))) => a == g, (None, Ok(Err(_))) => true, _ => false } { cx.violation("avro-schema", "the Avro schema is not the one the latest completed commit records", json!({"case": case(), "expected": due, "got": format!("{got_a:?}")})); }
        // clustering commits
        let tl = table.get_timeline();
        for desc in [false, true] {
            let rc: Vec<&C> = cs.iter().filter(|c| c.action == "replacecommit").collect();
            let err = rc.iter().any(|c| !c.readable || c.op.is_none());
            let mut due: Vec<String> = rc.iter().filter(|c| c.op.as_deref() == Some("cluster")).map(|c| c.ts.clone()).collect();
            if desc { due.reverse(); }
            let got = guard(|| cx.rt.block_on(tl.get_completed_clustering_commits(desc)).map_err(|e| e.to_string()));
            let got = got.map(|x| x.map(|v| v.iter().map(|i| i.timestamp.clone()).collect::<Vec<_>>()));
            if !match &got { Ok(Ok(v)) => !err && *v == due, Ok(Err(_)) => err, Err(_) => false } { cx.violation("clustering", "the clustering commits are not the completed replace commits that clustered files", json!({"case": case(), "descending": desc, "expected": if err { json!("an error") } else { json!(due) }, "got": format!("{got:?}")})); }
        }
        // metadata as text
        for i in &tl.completed_commits {
            let c = cs.iter().find(|c| c.ts == i.timestamp).unwrap();
            let due = if c.readable { serde_json::to_string(&c.meta).unwrap() } else { "{ not json".into() };
            let got = guard(|| cx.rt.block_on(tl.get_instant_metadata_in_json(i)).map_err(|e| e.to_string()));
            if got != Ok(Ok(due.clone())) { cx.violation("metadata-text", "the metadata of an instant is not its file's text", json!({"instant": i.timestamp, "expected": due, "got": format!("{got:?}")})); }
        }
    }
}
