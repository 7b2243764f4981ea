//! C16 splits, C21 listing a partition.
use crate::rt::*;
use crate::table::*;
use serde_json::json;
use std::collections::BTreeMap;

pub fn c16(cx: &mut Ctx) {
    cx.rule("tables of k partitions of one file group each (k from 0 to 40), plans split into n parts (n from 0 to beyond k); non-trivial = k at least 2");
    let mut r = cx.rng(16);
    let mut ks: Vec<usize> = vec![1, 2, 3, 5, 7, 8, 0, 10, 12, 4, 6, 9, 11, 13, 17, 24, 33, 40];
    if cx.thorough { ks.extend(14..64); }
    for k in ks {
        if cx.done() { return; }
        let mut t = Tbl::new("c16");
        t.mor = r.chance(1, 2);
        t.parts = (0..k.max(1)).map(|i| vec![format!("p{i}")]).collect();
        t.write_props();
        let ts = stamp(1000, false);
        let mut inst = Inst { ts: ts.clone(), action: if t.mor { "deltacommit" } else { "commit" }, completed: k > 0, writes: vec![], replaces: vec![] };
        for i in 0..k {
            let id = format!("f{i}-0");
            let base = format!("{id}_0-1-1_{ts}.parquet");
            let rows = vec![Row { key: format!("k{i}"), ts: 1, val: 1, commit: ts.clone(), seq: "1".into() }];
            t.put(i, &base, &t.parquet(&rows, i, &base));
            t.fgs.push(Fg { part: i, id, slices: vec![Slice { commit: ts.clone(), base, rows, logs: vec![] }], replaced: None });
            inst.writes.push(Write { fg: i, slice: 0, log: None, from: 0 });
        }
        t.insts.push(inst);
        t.write_instant(0, &mut r);
        let table = match t.open(cx) { Ok(x) => x, Err(e) => { cx.violation("open", "a table does not open", json!({"k": k, "error": e})); continue; } };
        let mut ns: Vec<usize> = (0..=k + 2).collect();
        ns.extend([64, 1000, usize::MAX, usize::MAX / 2 + 1]);
        for n in ns {
            if cx.done() { return; }
            cx.case(k >= 2, (k, n), || json!({"slices": k, "parts": n}));
            for as_of in [false, true] {
                if as_of && k == 0 { continue; }
                let plan = || guard(|| cx.rt.block_on(async { if as_of { table.get_file_slices_as_of(&ts, &[]).await } else { table.get_file_slices(&[]).await } }).map_err(|e| e.to_string()));
                // the order of the partitions may change while their map still grows
                let names = |w: &Result<Result<Vec<hudi_core::file_group::file_slice::FileSlice>, String>, String>| match w { Ok(Ok(v)) => v.iter().map(|s| s.partition_path.clone()).collect::<Vec<_>>(), _ => vec![] };
                let whole = plan();
                let parts = guard(|| cx.rt.block_on(async { if as_of { table.get_file_slices_splits_as_of(n, &ts, &[]).await } else { table.get_file_slices_splits(n, &[]).await } }).map_err(|e| e.to_string()));
                let after = plan();
                if names(&whole) != names(&after) && { let (mut a, mut b) = (names(&whole), names(&after)); a.sort(); b.sort(); a == b } { continue; }
                let (whole, parts) = match (whole, parts) { (Ok(Ok(w)), Ok(Ok(p))) => (w, p), (w, p) => { cx.violation("fails", "a plan cannot be made or split", json!({"slices": k, "n": n, "plan": format!("{:?}", w.map(|x| x.map(|v| v.len()))), "split": format!("{:?}", p.map(|x| x.map(|v| v.len())))})); continue; } };
                let name = |s: &hudi_core::file_group::file_slice::FileSlice| format!("{}/{}", s.partition_path, s.base_file.file_name());
                let w: Vec<String> = whole.iter().map(name).collect();
                let ps: Vec<Vec<String>> = parts.iter().map(|p| p.iter().map(name).collect()).collect();
                let sizes: Vec<usize> = ps.iter().map(|p| p.len()).collect();
                let mut bad = vec![];
                if w.len() != k { bad.push(format!("the plan has {} slices", w.len())); }
                if ps.concat() != w { bad.push("the parts put together are not the plan's slices, each once and in order".into()); }
                if sizes.contains(&0) { bad.push("an empty part".into()); }
                if sizes.len() > n.max(1) { bad.push("more than n parts".into()); }
                if let Some((last, init)) = sizes.split_last() { if init.iter().any(|s| s != &init[0]) || init.first().is_some_and(|s| last > s) { bad.push("part sizes differ by more than rounding".into()); } if init.first().or(Some(last)).is_some_and(|s| *s != k.div_ceil(n.max(1))) { bad.push(format!("parts of {} where {} each are due", sizes[0], k.div_ceil(n.max(1)))); } }
                if !bad.is_empty() { cx.violation("split", "a plan is not split into its parts", json!({"slices": k, "n": n, "as_of": as_of, "sizes": sizes, "what": bad, "plan": w.iter().take(12).collect::<Vec<_>>(), "parts": ps.iter().take(12).collect::<Vec<_>>()})); }
            }
        }
    }
}

pub fn c21(cx: &mut Ctx) {
    cx.rule("generated partition directories: base files of several commits and file ids, log files of any of them, beside markers, partition metadata, checksums, CDC logs and foreign files; non-trivial = at least two base files");
    let mut r = cx.rng(21);
    let n = if cx.thorough { 20_000 } else { 900 };
    for _ in 0..n {
        if cx.done() { return; }
        let mut t = Tbl::new("c21");
        t.mor = true;
        t.hive = r.chance(1, 2);
        match r.below(4) {
            0 => { t.fields = vec![]; t.schema_order = vec![]; t.parts = vec![vec![]]; t.hive = false; }
            1 => { t.fields = vec![("yr".into(), Ty::Int), ("city".into(), Ty::Str)]; t.schema_order = vec![0, 1]; t.parts = vec![vec!["2024".into(), "a".into()], vec!["2024".into(), "metadata".into()], vec!["2025".into(), "a".into()]]; }
            _ => { t.parts = vec![vec!["a".into()], vec!["ab".into()], vec!["x-y".into()]]; }
        }
        t.write_props();
        let ts: Vec<String> = (0..r.range(1, 4)).map(|i| stamp(1000 * i as u64 + r.below(3) as u64, false)).collect();
        let mut want: BTreeMap<(String, String), BTreeMap<String, (String, Vec<String>)>> = BTreeMap::new();
        let mut files: Vec<String> = vec![];
        // file ids that are prefixes of each other, and the same id in two partitions
        let ids = ["f1-0", "f1-1", "f11-0", "f", "0a1b2c3d-5e6f-4a1b-8c2d-001122334455-0", "x.y-0"];
        for p in 0..t.parts.len() {
            for id in ids.iter() {
                if !r.chance(1, 2) { continue; }
                let g = want.entry((t.part_path(p), id.to_string())).or_default();
                for c in &ts {
                    if g.len() > 0 && !r.chance(2, 3) { continue; }
                    let base = format!("{id}_{}-{}-1_{c}.parquet", r.below(12), r.below(12));
                    let rows = vec![Row { key: "k".into(), ts: 1, val: 1, commit: c.clone(), seq: "1".into() }];
                    t.put(p, &base, &t.parquet(&rows, p, &base));
                    files.push(t.rel(p, &base));
                    let mut logs = vec![];
                    for _ in 0..(if r.chance(1, 2) { r.below(5) } else { 0 }) {
                        let v = r.range(1, 12);
                        let l = format!(".{id}_{c}.{}.{v}_{}-{}-1", if r.chance(3, 4) { "log" } else { "archive" }, r.below(2), r.below(3));
                        if !logs.contains(&l) { t.put(p, &l, b""); files.push(t.rel(p, &l)); logs.push(l); }
                    }
                    logs.sort();
                    g.insert(c.clone(), (base, logs));
                }
            }
            // neighbours that are no data files
            let c = &ts[0];
            let junk = [".hoodie_partition_metadata".to_string(), ".hoodie_partition_metadata.parquet".into(), format!(".f1-0_0-1-1_{c}.parquet.crc"), format!("f1-0_0-1-1_{c}.parquet.crc"), format!(".f1-0_{c}.log.1_0-1-1.crc"), "_SUCCESS".into(), "_committed_123".into(), format!("f1-0_0-1-1_{c}.orc"),
                format!("f1-0_0-1-1_{c}.parquet.marker.CREATE"), ".DS_Store".into(), "notes.txt".into(), format!("f1-0_0-1-1_{c}.parquet_tmp"), ".".to_string() + "_x", format!(".f1-0_{c}.log"), "parquet".into(), format!(".f1-0_{c}.log.1_0-2-1.cdc"), format!(".f_{c}.log.2_0-2-1.cdc"), "README_.md".into(), format!("f1-0_{c}.log.1_0-1-1"), "é_ü_ß".into(), "_".into()];
            for j in junk { if r.chance(1, 3) { t.put(p, &j, b"junk"); files.push(t.rel(p, &j)); } }
        }
        // other directories that are no partitions
        if t.partitioned() { for d in ["_delta_log", "metadata"] { if r.chance(1, 3) { let f = format!("{d}/f1-0_0-1-1_{}.parquet", ts[0]); t.dir.write(&f, b"not a base file"); files.push(f); } } }
        t.insts.push(Inst { ts: ts.last().unwrap().clone(), action: "deltacommit", completed: true, writes: vec![], replaces: vec![] });
        let Some(((pp, id), g)) = want.iter().next() else { continue };
        let part = (0..t.parts.len()).find(|p| t.part_path(*p) == *pp).unwrap();
        let (c, (b, _)) = g.iter().next().unwrap();
        t.fgs.push(Fg { part, id: id.clone(), slices: vec![Slice { commit: c.clone(), base: b.clone(), rows: vec![], logs: vec![] }], replaced: None });
        t.insts[0].writes.push(Write { fg: 0, slice: 0, log: None, from: 0 });
        t.write_instant(0, &mut r);
        let nb: usize = want.values().map(|g| g.len()).sum();
        cx.case(nb >= 2, files.clone(), || json!(files));
        let table = match t.open(cx) { Ok(x) => x, Err(e) => { cx.violation("open", "a table does not open", json!({"files": files, "error": e})); continue; } };
        // as of each base file's commit every slice is seen
        for c in &ts {
            let mut exp: Vec<((String, String), (String, Vec<String>))> = vec![];
            for ((p, id), g) in &want { if let Some((_, (b, l))) = g.iter().filter(|(k, _)| *k <= c).last() { exp.push(((p.clone(), id.clone()), (b.clone(), l.clone()))); } }
            let got = guard(|| cx.rt.block_on(table.get_file_slices_as_of(c, &[])).map_err(|e| e.to_string()));
            let got = got.map(|x| x.map(|s| { let mut v: Vec<_> = s.iter().map(|s| ((s.partition_path.clone(), s.file_id().to_string()), (s.base_file.file_name(), { let mut l: Vec<String> = s.log_files.iter().map(|l| l.file_name()).collect(); l.sort(); l }))).collect(); v.sort(); v }));
            match got {
                Ok(Ok(v)) if v == exp => {}
                g => cx.violation("groups", "a listing does not put exactly the data files into their file groups", json!({"files": files, "as_of": c, "expected": exp, "got": format!("{g:?}")})),
            }
        }
    }
}
