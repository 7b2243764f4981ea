//! C18 storage: joined URLs, and directory trees with odd names read back and listed.
use crate::rt::*;
use hudi_core::config::table::HudiTableConfig as K;
use hudi_core::config::HudiConfigs;
use hudi_core::storage::util::{join_url_segments, parse_uri};
use hudi_core::storage::{get_leaf_dirs, Storage};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use url::Url;

const NAMES: [&str; 34] = ["a", "b", "dt=2024-01-01", "x y", "a%20b", "a b", "%2F", "%252F", "%", "é", "日本", "a+b", "a&b", "k=v=w", "#", "a#b", "?", "a?b=c", "~", "a\\b", "[x]", "{y}", "^", "`", "|", "<", ">", "\"", "*", "a:b", ".hoodie", "..a", "...", "%2e%2e"];
fn name(r: &mut Rng) -> String {
    if r.chance(3, 4) { return r.pick(&NAMES).to_string(); }
    let al: Vec<char> = "ab%2 F=+é#?&\\'\"<>{}|^`~!@$*()[];:,._-".chars().collect();
    let mut s = r.string(&al, 6);
    // the local store of the crate underneath hides names ending in "#digits"; "." and ".." name no entry
    while s.is_empty() || s == "." || s == ".." || hidden(&s) { s.push('x'); }
    s
}
fn hidden(s: &str) -> bool {
    // and takes a name ending in a letter and ':' or '|' for a drive
    let b = s.as_bytes();
    s.rsplit_once('#').is_some_and(|(_, d)| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())) || b.len() > 1 && b[b.len() - 2].is_ascii_alphabetic() && matches!(b[b.len() - 1], b':' | b'|')
}
fn undo(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' { let h = s.get(i + 1..i + 3)?; o.push(u8::from_str_radix(h, 16).ok()?); i += 3; } else { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).ok()
}
/// the decoded, non-empty levels of a URL's path; None when it is no proper encoding
fn levels(u: &Url) -> Option<Vec<String>> { u.path().split('/').filter(|s| !s.is_empty()).map(undo).collect() }

fn joins(cx: &mut Ctx, r: &mut Rng) {
    let n = if cx.thorough { 300_000 } else { 30_000 };
    let bases = ["file:///", "file:///tmp/t", "file:///tmp/t/", "file:///tmp/x%20y/", "file:///a%2520b", "s3://bucket", "s3://bucket/", "s3://bucket/p/q", "s3a://b/p%20q/", "gs://b/p", "hdfs://host:8020/warehouse/t", "wasbs://c@acc/x/", "abfss://c@acc.dfs/x", "/tmp/t", "/tmp/a b", "/tmp/a%20b/", "/tmp/é?#/", "http://h/p", "memory:///x"];
    for _ in 0..n {
        if cx.done() { return; }
        let base = r.pick(&bases).to_string();
        let k = r.below(4);
        let segs: Vec<String> = (0..k).map(|_| {
            let m = r.below(4);
            let parts: Vec<String> = (0..m).map(|_| match r.below(14) { 0 => "".into(), 1 => ".".into(), 2 => "..".into(), 3 => { let s = name(r); let at = r.below(s.chars().count() + 1); let mut c: Vec<char> = s.chars().collect(); c.insert(at, *r.pick(&['\t', '\n', '\r'])); c.into_iter().collect() } 4 => format!("..{}", r.pick(&["\t", "\n", "\r"])), _ => name(r) }).collect();
            let mut s = parts.join("/");
            if r.chance(1, 8) { s.insert(0, '/'); }
            if r.chance(1, 8) { s.push('/'); }
            s
        }).collect();
        let refs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
        cx.case(k > 0 && segs.iter().any(|s| !s.is_empty()), (&base, &segs), || json!({"base": base, "segments": segs}));
        let got = guard(|| parse_uri(&base).and_then(|b| join_url_segments(&b, &refs).map(|u| (b, u))).map_err(|e| e.to_string()));
        let names: Vec<String> = segs.iter().flat_map(|s| s.split('/')).filter(|s| !s.is_empty() && *s != ".").map(String::from).collect();
        let odd = names.iter().any(|s| s == ".." || s.contains(['\t', '\n', '\r']));
        let case = |x: String| json!({"base": base, "segments": segs, "got": x});
        match got {
            Err(p) => cx.violation("join-panic", "joining a path panics", case(p)),
            Ok(Err(e)) => if !odd { cx.violation("join-refused", "a path below the base is refused", case(e)) },
            Ok(Ok((b, u))) => {
                let want: Option<Vec<String>> = levels(&b).map(|mut v| { v.extend(names.clone()); v });
                if levels(&u) != want || u.path().contains("//") || (u.scheme(), u.authority()) != (b.scheme(), b.authority()) || u.query().is_some() || u.fragment().is_some() {
                    cx.violation("join", "a path does not resolve to the base followed by its segments", case(u.to_string()));
                }
            }
        }
    }
}
#[derive(Default)]
struct Dir { files: BTreeMap<String, Vec<u8>>, dirs: BTreeMap<String, Dir> }
fn grow(r: &mut Rng, depth: usize) -> Dir {
    let mut d = Dir::default();
    for _ in 0..r.below(4) { let n = name(r); let len = r.below(40); d.files.insert(n, (0..len).map(|_| r.next() as u8).collect()); }
    if depth > 0 { for _ in 0..r.below(4) { let n = name(r); if !d.files.contains_key(&n) { let c = grow(r, depth - 1); d.dirs.insert(n, c); } } }
    // an entry that would be read in place of another if a name were escaped twice, or not at all
    for n in d.files.keys().cloned().collect::<Vec<_>>() { for v in [n.replace('%', "%25"), n.replace(' ', "%20"), undo(&n).unwrap_or_default()] { if !v.is_empty() && !v.contains('/') && v != "." && v != ".." && !v.contains(char::is_control) && !hidden(&v) && r.chance(1, 2) && !d.dirs.contains_key(&v) { d.files.entry(v.clone()).or_insert_with(|| v.into_bytes()); } } }
    d
}
fn put(p: &std::path::Path, d: &Dir) {
    std::fs::create_dir_all(p).unwrap();
    for (n, b) in &d.files { std::fs::write(p.join(n), b).unwrap(); }
    for (n, c) in &d.dirs { put(&p.join(n), c); }
}
fn leaf(d: &Dir, at: &str, out: &mut Vec<String>) {
    if d.dirs.is_empty() { out.push(at.into()); }
    for (n, c) in &d.dirs { leaf(c, &if at.is_empty() { n.clone() } else { format!("{at}/{n}") }, out); }
}
fn open(uri: &str) -> Result<Arc<Storage>, String> { Storage::new(Arc::new(HashMap::new()), Arc::new(HudiConfigs::new([(K::BasePath, uri)]))).map_err(|e| e.to_string()) }
fn walk<'a>(d: &'a Dir, at: String, out: &mut Vec<(String, &'a Dir)>) {
    out.push((at.clone(), d));
    for (n, c) in &d.dirs { walk(c, if at.is_empty() { n.clone() } else { format!("{at}/{n}") }, out); }
}
fn trees(cx: &mut Ctx, r: &mut Rng) {
    for round in 0..(if cx.thorough { 1500 } else { 150 }) {
        if cx.done() { return; }
        let top = Scratch::new("c18");
        let below = name(r);
        let root = top.0.join(&below);
        let t = grow(r, 3);
        put(&root, &t);
        let mut uri = if r.chance(1, 2) { root.to_str().unwrap().to_string() } else { Url::from_directory_path(&root).unwrap().to_string() };
        if r.chance(1, 2) && uri.ends_with('/') { uri.pop(); }
        let st = match guard(|| open(&uri)) { Ok(Ok(s)) => s, x => { cx.violation("open", "the storage of a directory does not open", json!({"uri": uri, "error": format!("{x:?}")})); continue; } };
        let mut all = vec![];
        walk(&t, String::new(), &mut all);
        cx.case(all.len() > 1, (round, all.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), || json!({"base": uri, "directories": all.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}));
        let rt = cx.rt.handle().clone();
        for (at, d) in &all {
            let sub = if at.is_empty() && r.chance(1, 2) { None } else { Some(at.as_str()) };
            let case = |what: String| json!({"base": uri, "directory": at, "got": what});
            let set = |v: Vec<String>| { let mut v = v; v.sort(); v };
            // listings
            let got = guard(|| rt.block_on(st.list_dirs(sub)).map_err(|e| e.to_string()));
            let want: Vec<String> = d.dirs.keys().cloned().collect();
            if !matches!(&got, Ok(Ok(v)) if set(v.clone()) == set(want.clone())) { cx.violation("list-dirs", "the subdirectories listed are not those of the directory", case(format!("{got:?}, not {want:?}"))); }
            let got = guard(|| rt.block_on(st.list_files(sub)).map(|v| v.into_iter().map(|m| (m.name, m.size)).collect::<Vec<_>>()).map_err(|e| e.to_string()));
            let want: Vec<(String, usize)> = d.files.iter().map(|(n, b)| (n.clone(), b.len())).collect();
            if !matches!(&got, Ok(Ok(v)) if { let mut v = v.clone(); v.sort(); let mut w = want.clone(); w.sort(); v == w }) { cx.violation("list-files", "the files listed are not those of the directory", case(format!("{got:?}, not {want:?}"))); }
            let mut want = vec![];
            leaf(d, at, &mut want);
            let got = guard(|| rt.block_on(get_leaf_dirs(&st, sub)).map_err(|e| e.to_string()));
            if !matches!(&got, Ok(Ok(v)) if set(v.clone()) == set(want.clone())) { cx.violation("leaf-dirs", "the leaf directories found are not those below the directory", case(format!("{got:?}, not {want:?}"))); }
            // contents, and nothing else where there is no file
            for (n, b) in &d.files {
                let rel = if at.is_empty() { n.clone() } else { format!("{at}/{n}") };
                let rel = match r.below(8) { 0 => format!("/{rel}"), 1 => rel.replace('/', "//"), _ => rel };
                let got = guard(|| rt.block_on(st.get_file_data(&rel)).map(|x| x.to_vec()).map_err(|e| e.to_string()));
                if !matches!(&got, Ok(Ok(x)) if x == b) { cx.violation("bytes", "reading a path does not give the bytes of that file", json!({"base": uri, "path": rel, "got": format!("{got:?}"), "bytes": b})); }
                let got = guard(|| rt.block_on(async { use std::io::Read; let mut x = vec![]; st.get_storage_reader(&rel).await.map_err(|e| e.to_string())?.read_to_end(&mut x).map_err(|e| e.to_string())?; Ok::<_, String>(x) }));
                if !matches!(&got, Ok(Ok(x)) if x == b) { cx.violation("reader", "a storage reader does not give the bytes of that file", json!({"base": uri, "path": rel, "got": format!("{got:?}"), "bytes": b})); }
            }
            let mut none: BTreeSet<String> = d.files.keys().flat_map(|n| [format!("{n}x"), n.replace('%', "%25"), n.replace(' ', "%20"), n.replace(' ', "+"), format!("{n}\t"), format!("\n{n}"), format!("\r{n}"), undo(n).unwrap_or_default(), format!("../{n}"), format!("zz/../{n}")]).collect();
            none.retain(|n| !n.is_empty() && !n.contains('\0') && !d.files.contains_key(n) && !n.starts_with('/') && !n.contains("//") && (n.contains("..") || !n.contains('/')) && n != "." && n != ".." && !d.dirs.contains_key(n.as_str()));
            for n in none {
                let rel = if at.is_empty() { n.clone() } else { format!("{at}/{n}") };
                // `..` that stays inside the table and reaches a real file is not looked at
                let got = guard(|| rt.block_on(st.get_file_data(&rel)).map(|x| x.to_vec()).map_err(|e| e.to_string()));
                if let Ok(Ok(x)) = got { if !root.join(&rel).exists() || n.starts_with("zz/") { cx.violation("phantom", "reading a path that names no file gives bytes", json!({"base": uri, "path": rel, "got": x})); } }
            }
        }
    }
}
/// nothing outside the base is reachable
fn escapes(cx: &mut Ctx) {
    let top = Scratch::new("c18e");
    top.write("out.txt", b"outside");
    top.write("t/in.txt", b"inside");
    let st = open(&Url::from_directory_path(top.0.join("t")).unwrap().to_string()).unwrap();
    let rt = cx.rt.handle().clone();
    for up in ["..", "..\t", "\t..", ".\n.", "..\r", "%2e%2e", "%2E.", "..%2F", "a/../..", "./..", "..\\", ".\t./", "/..", "//..//"] {
        let rel = format!("{up}/out.txt");
        cx.case(true, ("escape", &rel), || json!({"path": rel}));
        for what in ["data", "files", "dirs"] {
            let got: Result<Result<String, String>, String> = guard(|| rt.block_on(async { match what {
                "data" => st.get_file_data(&rel).await.map(|x| String::from_utf8_lossy(&x).into_owned()).map_err(|e| e.to_string()),
                "files" => st.list_files(Some(up)).await.map(|x| format!("{x:?}")).map_err(|e| e.to_string()),
                _ => st.list_dirs(Some(up)).await.map(|x| format!("{x:?}")).map_err(|e| e.to_string()),
            } }));
            let bad = match &got { Ok(Ok(s)) => s.contains("outside") || s.contains("out.txt") || s.contains("\"t\""), Ok(Err(_)) => false, Err(_) => true };
            if bad { cx.violation("escape", "a path leads out of the table", json!({"path": if what == "data" { &rel } else { up }, "got": format!("{got:?}")})); }
        }
    }
}
pub fn c18(cx: &mut Ctx) {
    cx.rule("base URIs of ten schemes joined with up to three segments of odd characters (percent, space, reserved, control, dots, separators), compared with an independent decoding; random directory trees with such names on disk, listed and read back through Storage; paths that try to leave the base; non-trivial = a non-empty path, a tree with a subdirectory");
    escapes(cx);
    let mut r = cx.rng(18);
    joins(cx, &mut r);
    let mut r = cx.rng(181);
    trees(cx, &mut r);
    let mut r = cx.rng(182);
    parquets(cx, &mut r);
}
/// parquet files of any number of row groups, at odd paths, come back whole
fn parquets(cx: &mut Ctx, r: &mut Rng) {
    use arrow_array::{Int64Array, RecordBatch, StringArray};
    use arrow_schema::{DataType, Field, Schema};
    let schema = Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, true), Field::new("s", DataType::Utf8, true)]));
    for round in 0..if cx.thorough { 400 } else { 60 } {
        let top = Scratch::new("c18p");
        let st = open(&Url::from_directory_path(&top.0).unwrap().to_string()).unwrap();
        let rel = { let mut v: Vec<String> = (0..r.below(3)).map(|_| name(r)).collect(); v.push(format!("{}.parquet", name(r))); v.join("/") };
        let n = match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.below(60), _ => r.below(3000) };
        let ids: Vec<Option<i64>> = (0..n).map(|i| if r.chance(1, 9) { None } else { Some(i as i64 * 7) }).collect();
        let ss: Vec<Option<String>> = (0..n).map(|i| if r.chance(1, 9) { None } else { Some(format!("r{i}")) }).collect();
        let want = RecordBatch::try_new(schema.clone(), vec![Arc::new(Int64Array::from(ids)), Arc::new(StringArray::from(ss))]).unwrap();
        let f = top.0.join(&rel);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(&f, crate::table::parquet_bytes(&[want.clone()], schema.clone())).unwrap();
        cx.case(n > 7, (round, n, &rel), || json!({"path": rel, "rows": n}));
        let rt = cx.rt.handle().clone();
        let got = guard(|| rt.block_on(async {
            let b = st.get_parquet_file_data(&rel).await.map_err(|e| e.to_string())?;
            let m = st.get_file_metadata(&rel).await.map_err(|e| e.to_string())?;
            let s = st.get_parquet_file_schema(&rel).await.map_err(|e| e.to_string())?;
            Ok::<_, String>((b.columns() == want.columns() && b.schema().fields() == want.schema().fields(), m.num_records == n as i64 && m.size as u64 == std::fs::metadata(&f).unwrap().len() && m.name == f.file_name().unwrap().to_str().unwrap(), s.fields() == want.schema().fields()))
        }));
        if !matches!(got, Ok(Ok((true, true, true)))) { cx.violation("parquet", "a parquet file is not read as it was written (rows, metadata, schema)", json!({"path": rel, "rows": n, "got": format!("{got:?}")})); }
    }
}
