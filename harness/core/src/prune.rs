//! C13 partition pruning.
use crate::exprs::{accepts, cell_cmp, text_of, TYPES};
use crate::rt::*;
use crate::table::*;
use arrow_schema::{DataType, Field, Schema};
use hudi_core::config::table::HudiTableConfig as K;
use hudi_core::config::HudiConfigs;
use hudi_core::expr::filter::Filter;
use hudi_core::table::partition::PartitionPruner;
use serde_json::json;
use std::collections::BTreeSet;

const TOKS: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];
fn unescape(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    let hex = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() { if let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) { o.push((x * 16 + y) as u8); i += 3; continue; } }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}
/// the values a path gives for the fields, None when it gives none
fn read_path(path: &str, fields: &[(String, DataType)], hive: bool, urlenc: bool) -> Option<Vec<String>> {
    let raw: Vec<String> = path.split('/').map(String::from).collect();
    let parts: Vec<String> = if !urlenc { raw } else if raw.len() == fields.len() { raw.iter().map(|p| unescape(p)).collect::<Option<Vec<_>>>()? } else { unescape(path)?.split('/').map(String::from).collect() };
    if parts.len() != fields.len() { return None; }
    parts.iter().zip(fields).map(|(p, (n, ty))| {
        let v = if hive { let i = p.find('=')?; if p[..i] != *n { return None; } p[i + 1..].to_string() } else { p.clone() };
        cell_cmp(ty, &v, &v).map(|_| v)
    }).collect()
}
fn value(r: &mut Rng, ty: &DataType, urlenc: bool) -> String {
    match ty {
        DataType::Utf8 => { let al: &[char] = if urlenc { &['a', 'b', 'B', '/', '=', '%', ' ', 'é', '1', '+'] } else { &['a', 'b', 'B', '=', ' ', 'é', '1', '%', '+'] }; let s = r.string(al, 4); if !urlenc && s.is_empty() { "a".into() } else { s } }
        DataType::Int8 | DataType::Int16 | DataType::Int32 | DataType::Int64 | DataType::UInt32 if r.chance(1, 3) => r.pick(&["01", "007", "12", "00"]).to_string(),
        _ => text_of(r, ty, true),
    }
}
pub fn c13(cx: &mut Ctx) {
    cx.rule("partition schemas of one to four fields over nine types, hive-style and not, url-encoded and not, options set or left out; paths as written and damaged; up to three filters; then whole tables with the fields in an order of their own; non-trivial = at least one filter");
    let mut r = cx.rng(13);
    let n = if cx.thorough { 200_000 } else { 15_000 };
    for k in 0..n {
        if cx.done() { return; }
        let nf = r.range(1, 4);
        let names = ["a", "ab", "b", "yr", "x y"];
        let fields: Vec<(String, DataType)> = (0..nf).map(|i| (names[i].to_string(), TYPES[(k * 3 + r.below(TYPES.len())) % TYPES.len()].clone())).collect();
        let (hive, urlenc) = (r.chance(1, 2), r.chance(1, 2));
        let mut opts: Vec<(String, String)> = vec![];
        use strum_free::key;
        if hive || r.chance(1, 2) { opts.push((key(K::IsHiveStylePartitioning), hive.to_string())); }
        if urlenc || r.chance(1, 2) { opts.push((key(K::IsPartitionPathUrlencoded), urlenc.to_string())); }
        let vals: Vec<String> = fields.iter().map(|(_, ty)| value(&mut r, ty, urlenc)).collect();
        let mut segs: Vec<String> = fields.iter().zip(&vals).map(|((n, _), v)| { let v = if urlenc { enc(v) } else { v.clone() }; if hive { format!("{n}={v}") } else { v } }).collect();
        let dmg = r.below(12);
        match dmg {
            0 => { segs.pop(); }
            1 => segs.push("x".into()),
            2 => { let i = r.below(nf); segs[i] = segs[i].replacen('=', "", 1); }
            3 => { let i = r.below(nf); segs[i] = format!("z{}", segs[i]); }
            4 => { let i = r.below(nf); let bad = r.pick(&["__HIVE_DEFAULT_PARTITION__", "", "x", "%FF", "=", "1e"]).to_string(); segs[i] = if hive { format!("{}={bad}", fields[i].0) } else { bad }; }
            5 => segs.reverse(),
            _ => {}
        }
        let path = segs.join("/");
        let mut fs: Vec<(String, String, String)> = vec![];
        for _ in 0..r.below(4) {
            let i = r.below(nf);
            let lit = if r.chance(1, 2) { vals[i].clone() } else { value(&mut r, &fields[i].1, true) };
            fs.push((fields[i].0.clone(), r.pick(&TOKS).to_string(), lit));
        }
        let want = match read_path(&path, &fields, hive, urlenc) {
            None => true,
            Some(v) => fs.iter().all(|(n, t, l)| { let i = fields.iter().position(|f| f.0 == *n).unwrap(); accepts(t, cell_cmp(&fields[i].1, &v[i], l).unwrap()) }),
        };
        let case = json!({"fields": fields.iter().map(|(n, t)| format!("{n}: {t}")).collect::<Vec<_>>(), "options": opts, "path": path, "filters": fs});
        cx.case(!fs.is_empty(), case.to_string(), || case.clone());
        let schema = Schema::new(fields.iter().map(|(n, t)| Field::new(n, t.clone(), true)).collect::<Vec<_>>());
        let got = guard(|| -> Result<(bool, bool), String> {
            let fl: Vec<Filter> = fs.iter().map(|(a, b, c)| Filter::try_from((a.as_str(), b.as_str(), c.as_str())).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
            let p = PartitionPruner::new(&fl, &schema, &HudiConfigs::new(opts.clone())).map_err(|e| e.to_string())?;
            Ok((p.should_include(&path), p.is_empty()))
        });
        match got {
            Ok(Ok((g, e))) if g == want && e == fs.is_empty() => {}
            g => cx.violation(if want { "dropped" } else { "kept" }, if want { "a partition whose values satisfy every filter, or cannot be read, is dropped" } else { "a partition whose values do not satisfy every filter is kept" }, json!({"case": case, "expected": want, "got": format!("{g:?}")})),
        }
        if k % 16 == 0 {
            for f in [("nope", "=", "1"), (fields[0].0.as_str(), "=", "not a value of any type but text")] {
                if f.0 != "nope" && matches!(fields[0].1, DataType::Utf8) { continue; }
                let g = guard(|| PartitionPruner::new(&[Filter::try_from(f).unwrap()], &schema, &HudiConfigs::new(opts.clone())).is_err());
                if g != Ok(true) { cx.violation("bind", "a filter that cannot apply to the partition columns is taken", json!({"case": case, "filter": format!("{f:?}"), "got": format!("{g:?}")})); }
            }
        }
    }
    // whole tables
    let n = if cx.thorough { 5_000 } else { 250 };
    for _ in 0..n {
        if cx.done() { return; }
        let mut t = Tbl::new("c13");
        t.hive = r.chance(1, 2);
        t.urlenc = r.chance(1, 2);
        let nf = r.range(1, 3);
        t.fields = (0..nf).map(|i| (["yr", "city", "a"][i].to_string(), if r.chance(1, 2) { Ty::Int } else { Ty::Str })).collect();
        t.schema_order = (0..nf).collect();
        r.shuffle(&mut t.schema_order);
        let mut parts: BTreeSet<Vec<String>> = BTreeSet::new();
        for _ in 0..r.range(2, 6) { parts.insert(t.fields.iter().map(|(_, ty)| if *ty == Ty::Int { r.pick(&["1", "9", "10", "-3", "2024"]).to_string() } else if t.urlenc { r.pick(&["a", "b", "a/b", "x=y", "100%", "é", "a b", "10"]).to_string() } else { r.pick(&["a", "b", "x=y", "é", "a b", "10", "9"]).to_string() }).collect()); }
        t.parts = parts.into_iter().collect();
        let mut props = t.props();
        if r.chance(1, 2) { if !t.hive { props = props.replace("hoodie.datasource.write.hive_style_partitioning=false\n", ""); } if !t.urlenc { props = props.replace("hoodie.datasource.write.partitionpath.urlencode=false\n", ""); } }
        t.dir.write(".hoodie/hoodie.properties", props.as_bytes());
        let ts = stamp(1000, false);
        let mut inst = Inst { ts: ts.clone(), action: "commit", completed: true, writes: vec![], replaces: vec![] };
        for i in 0..t.parts.len() {
            let id = format!("f{i}-0");
            let base = format!("{id}_0-1-1_{ts}.parquet");
            let rows = vec![Row { key: format!("k{i}"), ts: 1, val: i as i32, commit: ts.clone(), seq: "1".into() }];
            t.put(i, &base, &t.parquet(&rows, i, &base));
            t.fgs.push(Fg { part: i, id, slices: vec![Slice { commit: ts.clone(), base, rows, logs: vec![] }], replaced: None });
            inst.writes.push(Write { fg: i, slice: 0, log: None, from: 0 });
        }
        t.insts.push(inst);
        t.write_instant(0, &mut r);
        let table = match t.open(cx) { Ok(x) => x, Err(e) => { cx.violation("open", "a table does not open", json!({"props": props, "error": e})); continue; } };
        for _ in 0..4 {
            let fs: Vec<(String, &str, String)> = (0..r.range(1, 3)).map(|_| { let i = r.below(nf); let p = r.below(t.parts.len()); let v = t.parts[p][i].clone(); (t.fields[i].0.clone(), *r.pick(&TOKS), v) }).collect();
            let keep: BTreeSet<usize> = (0..t.parts.len()).filter(|p| fs.iter().all(|(n, tok, l)| { let i = t.fields.iter().position(|f| f.0 == *n).unwrap(); let ty = if t.fields[i].1 == Ty::Int { DataType::Int32 } else { DataType::Utf8 }; accepts(tok, cell_cmp(&ty, &t.parts[*p][i], l).unwrap()) })).collect();
            let want: BTreeSet<String> = keep.iter().map(|p| t.fgs[*p].slices[0].base.clone()).collect();
            let fl: Vec<(&str, &str, &str)> = fs.iter().map(|(a, b, c)| (a.as_str(), *b, c.as_str())).collect();
            let case = json!({"properties": props, "columns": t.schema_order.iter().map(|i| &t.fields[*i].0).collect::<Vec<_>>(), "partitions": (0..t.parts.len()).map(|p| t.part_path(p)).collect::<Vec<_>>(), "filters": fs});
            cx.case(true, case.to_string(), || case.clone());
            let got = guard(|| cx.rt.block_on(table.get_file_slices(&fl)).map(|s| s.iter().map(|s| s.base_file.file_name()).collect::<BTreeSet<_>>()).map_err(|e| e.to_string()));
            match got { Ok(Ok(g)) if g == want => {}, g => cx.violation("plan", "a filtered plan does not hold exactly the partitions whose values satisfy the filters", json!({"case": case, "expected": want, "got": format!("{g:?}")})) }
        }
    }
}
mod strum_free { pub fn key(k: hudi_core::config::table::HudiTableConfig) -> String { k.as_ref().to_string() } }
