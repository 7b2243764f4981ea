//! C05 snapshot and time travel, C06 incremental reads.
use crate::rt::*;
use crate::table::*;
use serde_json::json;

fn case(cx: &mut Ctx, t: &Tbl) { let n = t.insts.iter().filter(|i| i.completed).count(); cx.case(n >= 2, t.trace.clone(), || json!(t.trace)); }
pub fn show(t: &Tbl) -> serde_json::Value { json!({"mor": t.mor, "hive": t.hive, "partition_fields": t.fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), "precombine": t.precombine, "history": t.trace}) }

fn check_rows(cx: &mut Ctx, t: &Tbl, key: &str, what: &str, at: serde_json::Value, got: Result<Result<Vec<arrow_array::RecordBatch>, String>, String>, want: Vec<Row>) {
    match got {
        Ok(Ok(bs)) => {
            let rows = rows_from(&bs, true);
            if rows != want {
                let extra: Vec<_> = rows.iter().filter(|r| !want.contains(r)).take(4).map(|r| format!("{r:?}")).collect();
                let miss: Vec<_> = want.iter().filter(|r| !rows.contains(r)).take(4).map(|r| format!("{r:?}")).collect();
                cx.violation(key, what, json!({"table": show(t), "at": at, "rows": rows.len(), "expected": want.len(), "unexpected": extra, "missing": miss}));
            }
        }
        e => cx.violation(&format!("{key}-fails"), what, json!({"table": show(t), "at": at, "error": format!("{e:?}")})),
    }
}

pub fn c05(cx: &mut Ctx) {
    cx.rule("generated table histories (inserts, updates, log files, compactions, replacements, pending instants) on disk, read as of times on and around each instant; non-trivial = at least two completed instants");
    let mut r = cx.rng(5);
    uncommitted(cx);
    let n = if cx.thorough { 20_000 } else { 1_200 };
    for i in 0..n {
        if cx.done() { return; }
        let t = history(&mut r, "c05", &Gen { max_insts: 8, allow_empty: true, rows: 5 });
        case(cx, &t);
        let table = match t.open(cx) { Ok(x) => x, Err(e) => { cx.violation("open", "a table does not open", json!({"table": show(&t), "error": e})); continue; } };
        let latest = t.insts.iter().filter(|i| i.completed).last().unwrap().ts.clone();
        let got = guard(|| cx.rt.block_on(table.get_file_slices(&[])).map_err(|e| e.to_string()));
        let mut qs = times_around(&t);
        r.shuffle(&mut qs);
        qs.truncate(7);
        let plan: Vec<_> = t.plan_as_of(&latest).into_iter().collect();
        match got { Ok(Ok(s)) if plan_of(&s) == plan => {}, g => cx.violation("latest", "the latest snapshot does not plan the newest slice of each live file group once", json!({"table": show(&t), "expected": plan, "got": format!("{:?}", g.map(|x| x.map(|s| plan_of(&s))))})) }
        for q in &qs {
            let got = guard(|| cx.rt.block_on(table.get_file_slices_as_of(q, &[])).map_err(|e| e.to_string()));
            let plan: Vec<_> = t.plan_as_of(q).into_iter().collect();
            match got { Ok(Ok(s)) if plan_of(&s) == plan => {}, g => cx.violation("as-of", "a time-travel read does not plan the newest slice not after the time of each live file group once", json!({"table": show(&t), "as_of": q, "expected": plan, "got": format!("{:?}", g.map(|x| x.map(|s| plan_of(&s))))})) }
        }
        if i % 2 == 0 {
            check_rows(cx, &t, "rows", "a snapshot read does not return the table's rows", json!("latest"), guard(|| cx.rt.block_on(table.read_snapshot(&[])).map_err(|e| e.to_string())), t.rows_as_of(&latest, false));
            for q in qs.iter().take(3) { check_rows(cx, &t, "rows-as-of", "a time-travel read does not return the rows as of the time", json!(q), guard(|| cx.rt.block_on(table.read_snapshot_as_of(q, &[])).map_err(|e| e.to_string())), t.rows_as_of(q, false)); }
        }
    }
}
/// files of a write that never completed: a base file, a log file
fn uncommitted(cx: &mut Ctx) {
    for which in ["base", "log"] {
        let mut t = Tbl::new("unc");
        t.mor = which == "log";
        t.fields = vec![]; t.schema_order = vec![]; t.parts = vec![vec![]];
        t.write_props();
        let mut r = cx.rng(55);
        let (t1, t2, t3) = (stamp(0, false), stamp(60_000, false), stamp(120_000, false));
        let row = |ts: &str, v: i32| Row { key: "k".into(), ts: v as i64, val: v, commit: ts.into(), seq: format!("{ts}_0_0") };
        for (i, ts) in [&t1, &t3].iter().enumerate() {
            let id = format!("f{i}-0");
            let base = format!("{id}_0-1-1_{ts}.parquet");
            let rows = vec![Row { key: format!("k{i}"), ..row(ts, 1) }];
            t.put(0, &base, &t.parquet(&rows, 0, &base));
            t.fgs.push(Fg { part: 0, id, slices: vec![Slice { commit: ts.to_string(), base, rows, logs: vec![] }], replaced: None });
            t.insts.push(Inst { ts: ts.to_string(), action: if t.mor { "deltacommit" } else { "commit" }, completed: true, writes: vec![Write { fg: i, slice: 0, log: None, from: 0 }], replaces: vec![] });
            t.write_instant(i, &mut r);
        }
        // t2 is still pending, its file is already there
        t.insts.push(Inst { ts: t2.clone(), action: if t.mor { "deltacommit" } else { "commit" }, completed: false, writes: vec![], replaces: vec![] });
        t.write_instant(2, &mut r);
        let rows = vec![Row { key: "k0".into(), ..row(&t2, 2) }];
        let name = if which == "base" { let n = format!("f0-0_0-2-1_{t2}.parquet"); t.put(0, &n, &t.parquet(&rows, 0, &n)); n } else {
            let l = Log { name: format!(".f0-0_{t1}.log.1_0-2-1"), version: 1, instant: t2.clone(), blocks: vec![Blk { instant: t2.clone(), rows, avro: false, dead: false }] };
            t.put(0, &l.name, &t.log_bytes(&l, 0)); l.name };
        t.trace = vec![format!("{t1}, {t3} completed; {t2} pending with {name}")];
        let got = t.open(cx).and_then(|table| guard(|| cx.rt.block_on(table.read_snapshot(&[])).map_err(|e| e.to_string()))?);
        match got {
            Ok(bs) => { let rows = rows_from(&bs, true); if rows.iter().any(|r| r.commit == t2) { cx.violation(&format!("uncommitted-{which}"), &format!("rows of a {which} file written by a commit that is not completed are returned"), json!({"history": t.trace, "rows": rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()})); } }
            Err(e) => cx.violation("uncommitted-fails", "reading beside a pending write fails", json!({"history": t.trace, "error": e})),
        }
    }
}

pub fn c06(cx: &mut Ctx) {
    cx.rule("generated table histories on disk, incremental windows with ends on and around the instants; non-trivial = at least two completed instants");
    let mut r = cx.rng(6);
    let n = if cx.thorough { 20_000 } else { 1_500 };
    for i in 0..n {
        if cx.done() { return; }
        let t = history(&mut r, "c06", &Gen { max_insts: 8, allow_empty: true, rows: 5 });
        case(cx, &t);
        let table = match t.open(cx) { Ok(x) => x, Err(e) => { cx.violation("open", "a table does not open", json!({"table": show(&t), "error": e})); continue; } };
        let latest = t.insts.iter().filter(|i| i.completed).last().unwrap().ts.clone();
        let qs = times_around(&t);
        for k in 0..8 {
            let (a, e) = (r.pick(&qs).clone(), r.pick(&qs).clone());
            let (a, e) = match k { 0 => (None, None), 1 => (Some(a), None), 2 => (None, Some(e)), _ => (Some(a), Some(e)) };
            let (wa, we) = (a.clone().unwrap_or("0".into()), e.clone().unwrap_or(latest.clone()));
            let mut want: Vec<_> = t.plan_between(&wa, &we).into_iter().map(|(g, s, l)| { let fg = &t.fgs[g]; let s = &fg.slices[s]; ((t.part_path(fg.part), fg.id.clone()), (s.base.clone(), l.iter().map(|x| s.logs[*x].name.clone()).collect())) }).collect();
            want.sort();
            let got = guard(|| cx.rt.block_on(table.get_file_slices_between(a.as_deref(), e.as_deref())).map_err(|e| e.to_string()));
            match got { Ok(Ok(s)) if plan_of(&s) == want => {}, g => cx.violation("plan", "the slices planned for a window are not those of the files written in it", json!({"table": show(&t), "start": a, "end": e, "expected": want, "got": format!("{:?}", g.map(|x| x.map(|s| plan_of(&s))))})) }
            if (i + k) % 4 == 0 {
                if let Some(a) = &a { check_rows(cx, &t, "rows", "an incremental read does not return the rows written in its window", json!([a, e]), guard(|| cx.rt.block_on(table.read_incremental_records(a, e.as_deref())).map_err(|e| e.to_string())), t.rows_between(&wa, &we)); }
            }
        }
    }
}
