//! C04 file groups.
use crate::names::read_log;
use crate::rt::*;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::FileGroup;
use serde_json::json;
use std::collections::BTreeMap;
use std::str::FromStr;

type Model = BTreeMap<String, (String, BTreeMap<(u64, String), String>)>;
fn dump(g: &FileGroup) -> Vec<(String, String, Vec<String>)> {
    g.file_slices.iter().map(|(k, s)| (k.clone(), s.base_file.file_name(), s.log_files.iter().map(|l| l.file_name()).collect())).collect()
}
fn model_dump(m: &Model) -> Vec<(String, String, Vec<String>)> { m.iter().map(|(k, (b, l))| (k.clone(), b.clone(), l.values().cloned().collect())).collect() }
fn base(ts: &str, tok: &str) -> String { format!("fg-1_{tok}_{ts}.parquet") }
fn log(ts: &str, v: u64, tok: &str) -> String { format!(".fg-1_{ts}.log.{v}_{tok}") }
fn times(r: &mut Rng) -> Vec<String> {
    let k = r.range(1, 6);
    let ms = r.chance(1, 2);
    (0..k).map(|_| { let d = [1u32, 2, 9, 10, 11, 12][r.below(6)]; let s = [0u32, 1, 59][r.below(3)]; if ms { format!("202401{d:02}0000{s:02}{:03}", [0, 1, 999][r.below(3)]) } else { format!("202401{d:02}0000{s:02}") } }).collect()
}
fn build(r: &mut Rng, ts: &[String], cx: &mut Ctx, part: &str) -> (FileGroup, Model, Vec<String>, bool) {
    let mut g = FileGroup::new("fg-1".into(), part.into());
    let mut m: Model = BTreeMap::new();
    let mut trace = vec![];
    let mut ok = true;
    for _ in 0..r.range(0, 14) {
        let t = r.pick(ts).clone();
        let before = dump(&g);
        let (op, res, want): (String, Result<Result<(), String>, String>, bool);
        match r.below(6) {
            0 | 1 => {
                let n = base(&t, ["0-1-1", "0-2-1"][r.below(2)]);
                op = format!("base {n}");
                res = guard(|| if n.contains("0-1-") { g.add_base_file_from_name(&n).map(|_| ()).map_err(|e| e.to_string()) } else { g.add_base_file(BaseFile::from_str(&n).unwrap()).map(|_| ()).map_err(|e| e.to_string()) });
                want = !m.contains_key(&t);
                if want { m.insert(t.clone(), (n, BTreeMap::new())); }
            }
            2 | 3 => {
                let (v, tok) = ([1u64, 2, 9, 10, 100][r.below(5)], ["0-1-1", "0-2-1"][r.below(2)]);
                let n = log(&t, v, tok);
                op = format!("log {n}");
                res = guard(|| if v % 2 == 0 { g.add_log_file_from_name(&n).map(|_| ()).map_err(|e| e.to_string()) } else { g.add_log_file(LogFile::from_str(&n).unwrap()).map(|_| ()).map_err(|e| e.to_string()) });
                want = m.contains_key(&t);
                if let Some(x) = m.get_mut(&t) { x.1.insert((v, tok.into()), n); }
            }
            4 => {
                let ns: Vec<String> = (0..r.range(1, 3)).map(|_| base(r.pick::<String>(ts), "0-3-1")).collect();
                op = format!("bases {ns:?}");
                let distinct = { let mut d: Vec<&String> = ns.iter().collect(); d.sort(); d.dedup(); d.len() == ns.len() };
                want = distinct && ns.iter().all(|n| !m.contains_key(n.split('_').nth(2).unwrap().trim_end_matches(".parquet")));
                res = guard(|| g.add_base_files(ns.iter().map(|n| BaseFile::from_str(n).unwrap())).map(|_| ()).map_err(|e| e.to_string()));
                if want { for n in &ns { m.insert(n.split('_').nth(2).unwrap().trim_end_matches(".parquet").into(), (n.clone(), BTreeMap::new())); } }
                else { ok = false; }
            }
            _ => {
                let ns: Vec<String> = (0..r.range(1, 4)).map(|_| log(r.pick::<String>(ts), [3u64, 11, 20][r.below(3)], "0-9-9")).collect();
                op = format!("logs {ns:?}");
                want = ns.iter().all(|n| m.contains_key(&read_log(n).unwrap()[1]));
                res = guard(|| g.add_log_files(ns.iter().map(|n| LogFile::from_str(n).unwrap())).map(|_| ()).map_err(|e| e.to_string()));
                if want { for n in &ns { let p = read_log(n).unwrap(); m.get_mut(&p[1]).unwrap().1.insert((p[3].parse().unwrap(), p[4].clone()), n.clone()); } }
                else { ok = false; }
            }
        }
        trace.push(op);
        match &res {
            Err(p) => { cx.violation("panic", "adding a file panics", json!({"trace": trace, "panic": p})); ok = false; }
            Ok(x) if x.is_ok() != want => { cx.violation("accepts", "adding a file succeeds or fails wrongly", json!({"trace": trace, "got": format!("{x:?}"), "expected_ok": want})); ok = false; }
            _ => {}
        }
        if !ok { break; } // a rejected batch may be half applied
        if !want && dump(&g) != before { cx.violation("changed", "a rejected file changes the group", json!({"trace": trace, "before": before, "after": dump(&g)})); ok = false; break; }
    }
    if ok && dump(&g) != model_dump(&m) { cx.violation("content", "the group does not hold what was added", json!({"trace": trace, "got": dump(&g), "expected": model_dump(&m)})); ok = false; }
    (g, m, trace, ok)
}
fn asof(cx: &mut Ctx, g: &mut FileGroup, m: &Model, q: &str, trace: &[String]) {
    let want = m.range(..=q.to_string()).next_back().map(|(k, (b, l))| (k.clone(), b.clone(), l.values().cloned().collect::<Vec<_>>()));
    let f = |s: &FileSlice| (s.creation_instant_time().to_string(), s.base_file.file_name(), s.log_files.iter().map(|l| l.file_name()).collect::<Vec<_>>());
    let got = guard(|| g.get_file_slice_as_of(q).map(f));
    if got != Ok(want.clone()) { cx.violation("as-of", "the slice served as of a time is not the newest not after it", json!({"trace": trace, "as_of": q, "got": format!("{got:?}"), "expected": want})); }
    let got = guard(|| g.get_file_slice_mut_as_of(q).map(|s| f(s)));
    if got != Ok(want.clone()) { cx.violation("as-of-mut", "the slice served (mutably) as of a time is not the newest not after it", json!({"trace": trace, "as_of": q, "got": format!("{got:?}"), "expected": want})); }
}
pub fn c04(cx: &mut Ctx) {
    cx.rule("sequences of base/log additions (single, batched, by name), then every as-of time around the commits, then merging two groups; non-trivial = at least two slices");
    let mut r = cx.rng(4);
    let n = if cx.thorough { 400_000 } else { 25_000 };
    for _ in 0..n {
        if cx.done() { return; }
        let ts = times(&mut r);
        let (mut g, m, trace, ok) = build(&mut r, &ts, cx, "p=1");
        cx.case(m.len() >= 2, trace.clone(), || json!(trace));
        if !ok { continue; }
        let mut qs: Vec<String> = ts.clone();
        qs.extend(m.keys().map(|k| format!("{}0", &k[..k.len() - 1])));
        qs.extend(["0".into(), "".into(), "9".into(), "20240105000000".into(), "20240110000000500".into()]);
        for q in &qs { asof(cx, &mut g, &m, q, &trace); }
        // merging
        let (g2, m2, trace2, ok2) = build(&mut r, &ts, cx, "p=1");
        if !ok2 { continue; }
        let mut h = g.clone();
        let clash = m.iter().any(|(k, v)| m2.get(k).is_some_and(|w| w.0 != v.0));
        let res = guard(|| h.merge(&g2).map_err(|e| e.to_string()));
        match res {
            Err(p) => cx.violation("merge-panic", "merging groups panics", json!({"a": trace, "b": trace2, "panic": p})),
            Ok(Ok(())) if !clash => {
                let mut u = m.clone();
                for (k, (b, l)) in &m2 { let e = u.entry(k.clone()).or_insert_with(|| (b.clone(), BTreeMap::new())); for (x, y) in l { e.1.insert(x.clone(), y.clone()); } }
                if dump(&h) != model_dump(&u) { cx.violation("merge", "merging two groups loses or changes files", json!({"a": trace, "b": trace2, "got": dump(&h), "expected": model_dump(&u)})); }
            }
            Ok(Err(_)) if clash => {}
            Ok(x) => cx.violation("merge-accepts", "merging groups succeeds or fails wrongly", json!({"a": trace, "b": trace2, "got": format!("{x:?}")})),
        }
        // another group's slices are never taken in
        for o in [FileGroup::new("fg-2".into(), "p=1".into()), FileGroup::new("fg-1".into(), "p=2".into())] {
            let mut h = g.clone();
            if guard(|| h.merge(&o)).map(|x| x.is_ok()) != Ok(false) { cx.violation("merge-foreign", "a different file group is merged in", json!({"other": [o.file_id.clone(), o.partition_path.clone()]})); }
        }
    }
}
