//! C17 configuration: texts, typed options, layering, what is refused.
use crate::rt::*;
use bytes::Bytes;
use hudi_core::config::internal::HudiInternalConfig;
use hudi_core::config::read::HudiReadConfig as Rd;
use hudi_core::config::table::HudiTableConfig as Tc;
use hudi_core::config::util::{parse_data_for_options, split_hudi_options_from_others};
use hudi_core::config::{ConfigParser, HudiConfigValue as Cv, HudiConfigs};
use hudi_core::table::builder::TableBuilder;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// how a value of each option is written, and what it means; told without the crate's parsers
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Bool, Int, UInt, Pos, Text, List, Format, Type, Zone, Merge }
fn int(s: &str) -> Option<i128> {
    let (neg, d) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    if d.is_empty() || d.len() > 25 || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let n = d.bytes().fold(0i128, |a, b| a * 10 + (b - b'0') as i128);
    Some(if neg { -n } else { n })
}
fn low(s: &str) -> String { s.chars().map(|c| if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c }).collect() }
#[derive(Clone, PartialEq, Debug)]
enum V { B(bool), I(i128), S(String), L(Vec<String>) }
fn means(k: K, raw: &str) -> Option<V> {
    let l = low(raw);
    match k {
        K::Bool => match raw { "true" => Some(V::B(true)), "false" => Some(V::B(false)), _ => None },
        K::Int => int(raw).filter(|i| (i64::MIN as i128..=i64::MAX as i128).contains(i)).map(V::I),
        K::UInt => int(raw).filter(|i| !raw.starts_with('-') && *i >= 0 && *i <= u64::MAX as i128).map(V::I),
        K::Pos => int(raw).filter(|i| !raw.starts_with('-') && *i > 0 && *i <= u64::MAX as i128).map(V::I),
        K::Text => Some(V::S(raw.into())),
        K::List => { let mut v = vec![String::new()]; for c in raw.chars() { if c == ',' { v.push(String::new()) } else { v.last_mut().unwrap().push(c) } } Some(V::L(v)) }
        K::Format => (l == "parquet").then(|| V::S("parquet".into())),
        K::Type => match l.as_str() { "cow" | "copy_on_write" | "copy-on-write" => Some(V::S("COPY_ON_WRITE".into())), "mor" | "merge_on_read" | "merge-on-read" => Some(V::S("MERGE_ON_READ".into())), _ => None },
        K::Zone => match l.as_str() { "utc" | "local" => Some(V::S(l)), _ => None },
        K::Merge => match l.as_str() { "append_only" | "overwrite_with_latest" => Some(V::S(l)), _ => None },
    }
}
fn of(v: &Cv) -> V { match v { Cv::Boolean(b) => V::B(*b), Cv::Integer(i) => V::I(*i as i128), Cv::UInteger(i) => V::I(*i as i128), Cv::String(s) => V::S(s.clone()), Cv::List(l) => V::L(l.clone()) } }
fn table_opts() -> Vec<(Tc, &'static str, K, Option<V>, bool)> {
    let s = |x: &str| Some(V::S(x.into()));
    vec![
        (Tc::BaseFileFormat, "hoodie.table.base.file.format", K::Format, s("parquet"), false),
        (Tc::BasePath, "hoodie.base.path", K::Text, None, false),
        (Tc::Checksum, "hoodie.table.checksum", K::Int, None, false),
        (Tc::DatabaseName, "hoodie.database.name", K::Text, s("default"), false),
        (Tc::DropsPartitionFields, "hoodie.datasource.write.drop.partition.columns", K::Bool, Some(V::B(false)), false),
        (Tc::IsHiveStylePartitioning, "hoodie.datasource.write.hive_style_partitioning", K::Bool, None, false),
        (Tc::IsPartitionPathUrlencoded, "hoodie.datasource.write.partitionpath.urlencode", K::Bool, None, false),
        (Tc::KeyGeneratorClass, "hoodie.table.keygenerator.class", K::Text, None, false),
        (Tc::PartitionFields, "hoodie.table.partition.fields", K::List, Some(V::L(vec![])), false),
        (Tc::PrecombineField, "hoodie.table.precombine.field", K::Text, None, false),
        (Tc::PopulatesMetaFields, "hoodie.populate.meta.fields", K::Bool, Some(V::B(true)), false),
        (Tc::RecordKeyFields, "hoodie.table.recordkey.fields", K::List, None, false),
        (Tc::RecordMergeStrategy, "hoodie.table.record.merge.strategy", K::Merge, None, false),
        (Tc::TableName, "hoodie.table.name", K::Text, None, true),
        (Tc::TableType, "hoodie.table.type", K::Type, None, true),
        (Tc::TableVersion, "hoodie.table.version", K::Int, None, true),
        (Tc::TimelineLayoutVersion, "hoodie.timeline.layout.version", K::Int, None, false),
        (Tc::TimelineTimezone, "hoodie.table.timeline.timezone", K::Zone, s("utc"), false),
    ]
}
fn read_opts() -> Vec<(Rd, &'static str, K, Option<V>, bool)> {
    vec![
        (Rd::FileGroupStartTimestamp, "hoodie.read.file_group.start_timestamp", K::Text, None, false),
        (Rd::FileGroupEndTimestamp, "hoodie.read.file_group.end_timestamp", K::Text, None, false),
        (Rd::InputPartitions, "hoodie.read.input.partitions", K::UInt, Some(V::I(0)), false),
        (Rd::ListingParallelism, "hoodie.read.listing.parallelism", K::Pos, Some(V::I(10)), false),
        (Rd::UseReadOptimizedMode, "hoodie.read.use.read_optimized.mode", K::Bool, Some(V::B(false)), false),
    ]
}
fn raws(k: K, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "true", "false", "True", "TRUE", " true", "0", "1", "5", "6", "-1", "+7", "007", "1.0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-0", "a,b", "a,", ",a", ",,", "a, b ", "é,ü", "parquet", "PARQUET", "orc", "Parquet ", "cow", "COW", "copy_on_write", "Copy-On-Write", "copy on write", "mor", "MERGE_ON_READ", "merge-on-read", "MOR ", "utc", "UTC", "Local", "gmt", "append_only", "APPEND_ONLY", "overwrite_with_latest", "Overwrite_With_Latest", "overwrite-with-latest", "x"].iter().map(|s| s.to_string()).collect();
    for _ in 0..12 { let s = r.string(&['a', 'O', 'r', '_', '-', '0', '7', ',', ' ', 'é', '='], 8); v.push(s); }
    if matches!(k, K::Type | K::Zone | K::Format | K::Merge) { for w in ["copy_on_write", "merge_on_read", "utc", "local", "parquet", "append_only", "overwrite_with_latest"] { let s: String = w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(); v.push(s); } }
    v
}
fn typed<P: ConfigParser<Output = Cv> + Clone + std::fmt::Debug>(cx: &mut Ctx, r: &mut Rng, opts: Vec<(P, &'static str, K, Option<V>, bool)>) {
    for (p, key, k, default, required) in opts {
        let mut sets: Vec<Option<String>> = raws(k, r).into_iter().map(Some).collect();
        sets.push(None);
        for raw in sets {
            if cx.done() { return; }
            cx.case(raw.is_some(), (key, raw.clone()), || json!({"option": key, "text": raw}));
            let mut o: Vec<(String, String)> = vec![("hoodie.other".into(), "1".into())];
            if let Some(x) = &raw { o.push((key.into(), x.clone())); }
            let h = HudiConfigs::new(o);
            let want = raw.as_deref().and_then(|x| means(k, x));
            let mut bad = vec![];
            if p.as_ref() != key { bad.push(format!("the option is named {}", p.as_ref())); }
            match guard(|| h.get(p.clone())) { Ok(g) => if g.as_ref().ok().map(of) != want { bad.push(format!("get gives {g:?}, not {want:?}")); }, Err(e) => bad.push(format!("get panics: {e}")) }
            match guard(|| h.try_get(p.clone())) { Ok(g) => if g.as_ref().map(of) != want.clone().or(default.clone()) { bad.push(format!("try_get gives {g:?}, not {:?}", want.clone().or(default.clone()))); }, Err(e) => bad.push(format!("try_get panics: {e}")) }
            if let Some(w) = want.clone().or(default.clone()) { match guard(|| h.get_or_default(p.clone())) { Ok(g) => if of(&g) != w { bad.push(format!("get_or_default gives {g:?}, not {w:?}")); }, Err(e) => bad.push(format!("get_or_default panics: {e}")) } }
            let ok = match &raw { Some(_) => want.is_some(), None => !required };
            match guard(|| h.validate(p.clone())) { Ok(g) => if g.is_ok() != ok { bad.push(format!("validate gives {g:?}")); }, Err(e) => bad.push(format!("validate panics: {e}")) }
            if !bad.is_empty() { cx.violation(&format!("option:{key}"), "a typed option is not what its text says", json!({"option": key, "text": raw, "what": bad})); }
        }
    }
}
fn texts(cx: &mut Ctx, r: &mut Rng) {
    let keyc: Vec<char> = "abz.AZ09_-é:".chars().collect();
    let valc: Vec<char> = "ab Z=09#:\\,é\t/.-".chars().collect();
    let n = if cx.thorough { 60000 } else { 6000 };
    for round in 0..n {
        if cx.done() { return; }
        let seps = if r.chance(1, 2) { "=" } else { " \t=" };
        let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
        let mut text = String::new();
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for _ in 0..r.below(6) {
            let sp = |r: &mut Rng| r.string(&[' ', '\t'], 2);
            match r.below(6) {
                0 => { text += &sp(r); text += nl; }
                1 => { text += &sp(r); text += "#"; text += &r.string(&valc, 6); text += nl; }
                _ => {
                    let key = { let mut k = r.string(&keyc, 4); if k.is_empty() || r.chance(1, 5) { k = "hoodie.x".into(); } k };
                    let mut v = r.string(&valc, 7).trim().to_string();
                    if seps.len() > 1 { v = v.trim_start_matches(|c: char| c == '=' || c.is_whitespace()).to_string(); }
                    let s = if seps == "=" { "=".to_string() } else { r.pick(&["=", " ", "\t", "="]).to_string() };
                    // spaces around the separator
                    let (a, b) = if s == "=" { (sp(r), sp(r)) } else { (String::new(), sp(r)) };
                    text += &sp(r); text += &key; text += &a; text += &s; text += &b; text += &v; text += &sp(r);
                    want.insert(key, v);
                    text += nl;
                }
            }
        }
        if r.chance(1, 2) && text.ends_with(nl) { text.truncate(text.len() - nl.len()); }
        cx.case(want.len() > 1, (text.clone(), seps), || json!({"text": text, "separators": seps}));
        let got = guard(|| parse_data_for_options(&Bytes::from(text.clone()), seps));
        match got { Ok(Ok(m)) if m.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<BTreeMap<_, _>>() == want => {}
            x => cx.violation("text", "a configuration text is not read as written", json!({"text": text, "separators": seps, "read": format!("{x:?}"), "written": want})) }
        if round % 8 == 0 { // no bytes make it panic; only text is read
            let mut b: Vec<u8> = text.into_bytes(); for _ in 0..3 { let i = r.below(b.len() + 1); b.insert(i, r.below(256) as u8); }
            let u = String::from_utf8(b.clone()).is_ok();
            match guard(|| parse_data_for_options(&Bytes::from(b.clone()), seps)) { Ok(x) if x.is_ok() == u => {}, x => cx.violation("bytes", "bytes are not read as text, or text is refused", json!({"bytes": b, "read": format!("{x:?}")})) }
        }
    }
}
fn splits(cx: &mut Ctx, r: &mut Rng) {
    for _ in 0..400 {
        if cx.done() { return; }
        let o: Vec<(String, String)> = (0..r.below(6)).map(|i| (r.pick(&["hoodie.a", "hoodie.", "hoodie", "Hoodie.a", "aws_x", "", "x.hoodie.a", "hoodie.b.c"]).to_string(), format!("v{i}"))).collect();
        let (a, b) = split_hudi_options_from_others(o.clone());
        let mut wa = HashMap::new(); let mut wb = HashMap::new();
        for (k, v) in &o { if k.len() >= 7 && &k.as_bytes()[..7] == b"hoodie." { wa.insert(k.clone(), v.clone()); } else { wb.insert(k.clone(), v.clone()); } }
        cx.case(o.len() > 1, ("split", o.clone()), || json!({"options": o}));
        if (a.clone(), b.clone()) != (wa, wb) { cx.violation("split", "Hudi options are not told from the others", json!({"options": o, "hudi": a, "others": b})); }
    }
}
const REQ: [(&str, &str); 4] = [("hoodie.table.name", "t"), ("hoodie.table.type", "COPY_ON_WRITE"), ("hoodie.table.version", "6"), ("hoodie.timeline.layout.version", "1")];
fn lines(m: &BTreeMap<String, String>, sep: &str) -> String { m.iter().map(|(k, v)| format!("{k}{sep}{v}\n")).collect() }
type M = BTreeMap<String, String>;
fn open(cx: &Ctx, dir: &Scratch, hudi: &M, storage: &M, generic: &M) -> Result<Result<(M, M), String>, String> {
    let uri = dir.uri();
    guard(|| cx.rt.block_on(async {
        let mut b = TableBuilder::from_base_uri(&uri).with_hudi_options(hudi.clone()).with_storage_options(storage.clone()).with_options(generic.clone());
        b.build().await.map(|t| (t.hudi_configs.as_options().into_iter().collect(), t.storage_options.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).map_err(|e| e.to_string())
    }))
}
fn layers(cx: &mut Ctx, r: &mut Rng) {
    let conf = Scratch::new("c17conf");
    std::env::set_var("HUDI_CONF_DIR", &conf.0);
    let keys = ["hoodie.k1", "hoodie.k2", "hoodie.k3", "hoodie.read.input.partitions", "hoodie.database.name"];
    let cloud = ["HX_REGION", "HX_TOKEN", "HX_A", "HX_B"];
    let dir = Scratch::new("c17");
    for round in 0..(if cx.thorough { 8000 } else { 1200 }) {
        if cx.done() { break; }
        let mut src: Vec<M> = vec![];
        for i in 0..4 { let mut m = M::new(); for k in keys { if r.chance(1, 2) { let v = if k.contains("partitions") { format!("{}", i + 1) } else { format!("{}{i}", ["props", "explicit", "generic", "site"][i]) }; m.insert(k.into(), v); } } src.push(m); }
        // other options in the site's file are nobody's
        if r.chance(1, 2) { src[3].insert("other.key".into(), "9".into()); }
        for (k, v) in REQ { src[0].insert(k.into(), v.into()); }
        // a required option may come from any source
        let site = r.chance(4, 5);
        if r.chance(1, 3) { let v = src[0].remove("hoodie.table.name").unwrap(); let at = r.range(1, if site { 3 } else { 2 }); src[at].insert("hoodie.table.name".into(), v); }
        dir.write(".hoodie/hoodie.properties", (lines(&src[0], "=") + "\n# end\n").as_bytes());
        if site { conf.write("hudi-defaults.conf", lines(&src[3], *r.pick(&["=", " ", " = ", "   ", "\t"])).as_bytes()); } else { let _ = std::fs::remove_file(conf.0.join("hudi-defaults.conf")); }
        // storage options
        let mut storage = M::new(); let mut generic = src[2].clone(); let mut env = M::new();
        for k in cloud {
            let up = k.replacen("HX", *r.pick(&["AWS", "AZURE", "GOOGLE", "OTHER"]), 1);
            let l = low(&up);
            match r.below(8) { 0 => { storage.insert(l.clone(), format!("{l}-lower")); } 1 => { storage.insert(up.clone(), format!("{up}-upper")); } 2 => { generic.insert(up.clone(), format!("{up}-generic")); } 3 => { generic.insert(l.clone(), format!("{l}-genlow")); } 4 => { storage.insert(l.clone(), format!("{l}-lower")); generic.insert(l.clone(), format!("{l}-genlow")); } 5 => { storage.insert(up.clone(), format!("{up}-upper")); generic.insert(up.clone(), format!("{up}-generic")); } _ => {} }
            if r.chance(1, 2) { env.insert(up.clone(), format!("{up}-env")); }
        }
        for (k, v) in &env { std::env::set_var(k, v); }
        let got = open(cx, &dir, &src[1], &storage, &generic);
        for k in env.keys() { std::env::remove_var(k); }
        // what must come out
        let mut hudi = M::new();
        if site { for (k, v) in &src[3] { if k.starts_with("hoodie.") { hudi.insert(k.clone(), v.clone()); } } }
        for m in [&src[2], &src[1]] { for (k, v) in m { hudi.insert(k.clone(), v.clone()); } }
        hudi.insert("hoodie.base.path".into(), dir.uri());
        for (k, v) in &src[0] { hudi.insert(k.clone(), v.clone()); }
        let is_cloud = |k: &str| ["AWS_", "AZURE_", "GOOGLE_"].iter().any(|p| k.starts_with(p));
        let mut user = M::new();
        for (k, v) in &generic { if !k.starts_with("hoodie.") { user.insert(k.clone(), v.clone()); } }
        for (k, v) in &storage { user.insert(k.clone(), v.clone()); }
        let mut st = M::new();
        for (k, v) in &env { if is_cloud(k) { st.insert(low(k), v.clone()); } }
        for (k, v) in &user { if is_cloud(k) { st.insert(low(k), v.clone()); } }
        for (k, v) in &user { st.insert(k.clone(), v.clone()); }
        let case = || json!({"hoodie.properties": src[0], "explicit": src[1], "generic": generic, "storage": storage, "environment": env, "site file": if site { Some(&src[3]) } else { None }});
        cx.case(true, ("layers", round, format!("{src:?}")), case);
        match got {
            Ok(Ok((h, s))) => {
                let d = |a: &M, b: &M| -> Vec<String> { let mut x: Vec<String> = vec![]; for k in a.keys().chain(b.keys()) { if a.get(k) != b.get(k) { x.push(format!("{k}: {:?}, not {:?}", a.get(k), b.get(k))); } } x.sort(); x.dedup(); x };
                let bad = d(&h, &hudi);
                if !bad.is_empty() { cx.violation("layers", "an option does not come from the source that takes precedence", json!({"case": case(), "wrong": bad})); }
                // names the environment of this process brings besides are left alone
                let s: M = s.into_iter().filter(|(k, _)| st.contains_key(k) || env.keys().any(|e| &low(e) == k) || user.contains_key(k)).collect();
                let bad = d(&s, &st);
                if !bad.is_empty() { cx.violation("storage-layers", "a storage option does not come from the source that takes precedence", json!({"case": case(), "wrong": bad})); }
            }
            x => cx.violation("open", "a table in order does not open", json!({"case": case(), "error": format!("{:?}", x.map(|y| y.map(|_| ())))})),
        }
    }
    // what is refused: the options of a table, one or two of them out of order
    let _ = std::fs::remove_file(conf.0.join("hudi-defaults.conf"));
    let tabs: Vec<(&'static str, K, bool)> = table_opts().into_iter().map(|o| (o.1, o.2, o.4)).chain(read_opts().into_iter().map(|o| (o.1, o.2, o.4))).filter(|o| o.0 != "hoodie.base.path").collect();
    let mut cases: Vec<M> = vec![];
    let base: M = REQ.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for (k, kind, _) in &tabs { let mut m = base.clone(); m.remove(*k); cases.push(m); for raw in raws(*kind, r) { if raw.trim() == raw { let mut m = base.clone(); m.insert(k.to_string(), raw); cases.push(m); } } }
    for v in -3..12 { for l in -1..4 { let mut m = base.clone(); m.insert("hoodie.table.version".into(), v.to_string()); m.insert("hoodie.timeline.layout.version".into(), l.to_string()); cases.push(m); } }
    for pop in ["true", "false", ""] { for pre in ["ts", ""] { for ms in ["append_only", "OVERWRITE_WITH_LATEST", "overwrite_with_latest", "x", ""] { for drop in ["true", "false", ""] { for skip in ["true", "false", ""] {
        let mut m = base.clone();
        for (k, v) in [("hoodie.populate.meta.fields", pop), ("hoodie.table.precombine.field", pre), ("hoodie.table.record.merge.strategy", ms), ("hoodie.datasource.write.drop.partition.columns", drop), ("hoodie.internal.skip.config.validation", skip)] { if !v.is_empty() { m.insert(k.into(), v.into()); } }
        cases.push(m);
    } } } } }
    if !cx.thorough { let (mut a, mut b): (Vec<M>, Vec<M>) = (vec![], vec![]); for (i, m) in cases.into_iter().enumerate() { if i % 2 == (r.0 % 2) as usize { a.push(m) } else { b.push(m) } } b.truncate(b.len() / 2); a.extend(b); cases = a; }
    for m in cases {
        if cx.done() { break; }
        let val = |k: &str| tabs.iter().find(|t| t.0 == k).and_then(|t| m.get(k).and_then(|x| means(t.1, x)));
        let sound = tabs.iter().all(|(k, kind, req)| match m.get(*k) { Some(x) => means(*kind, x).is_some(), None => !req });
        let pre = m.contains_key("hoodie.table.precombine.field");
        let pop = val("hoodie.populate.meta.fields") != Some(V::B(false));
        let merge = match val("hoodie.table.record.merge.strategy") { Some(V::S(s)) => s, _ => if !pop || !pre { "append_only".into() } else { "overwrite_with_latest".into() } };
        let fit = sound && matches!(val("hoodie.table.version"), Some(V::I(5 | 6))) && val("hoodie.timeline.layout.version") == Some(V::I(1)) && val("hoodie.datasource.write.drop.partition.columns") != Some(V::B(true)) && (merge == "append_only" || (pop && pre));
        let skip = m.get("hoodie.internal.skip.config.validation").map(|s| s.as_str()) == Some("true");
        cx.case(!fit, ("fit", format!("{m:?}")), || json!({"options": m, "supported": fit}));
        // from the table's own file, or from the caller
        let (file, caller): (M, M) = if r.chance(1, 2) { (m.clone(), M::new()) } else { (M::new(), m.clone()) };
        dir.write(".hoodie/hoodie.properties", lines(&file, "=").as_bytes());
        let (h, g) = if r.chance(1, 2) { (caller, M::new()) } else { (M::new(), caller) };
        match open(cx, &dir, &h, &M::new(), &g) {
            Ok(x) if skip || x.is_ok() == fit => {}
            x => cx.violation(if fit { "refused" } else { "unsupported" }, if fit { "a table in order is refused" } else { "a table this reader cannot support is not refused with an error" }, json!({"options": m, "in": if file.is_empty() { "the caller's options" } else { "hoodie.properties" }, "got": format!("{:?}", x.map(|y| y.map(|_| "opened")))})),
        }
    }
    // no table at all
    let none = Scratch::new("c17none");
    match open(cx, &none, &base, &M::new(), &M::new()) { Ok(Err(_)) => {}, x => cx.violation("no-table", "a directory with no hoodie.properties opens as a table", json!({"got": format!("{:?}", x.map(|y| y.map(|_| ())))})) }
    std::env::remove_var("HUDI_CONF_DIR");
}
pub fn c17(cx: &mut Ctx) {
    cx.rule("configuration texts of up to five lines with comments, blank lines, CRLF, spaces around separators and values holding separators; every option over about 60 texts; tables opened with options in hoodie.properties, explicit, generic, environment and the site's file; options out of order; non-trivial = more than one pair, a set option, every table");
    let mut r = cx.rng(17);
    typed(cx, &mut r, table_opts());
    typed(cx, &mut r, read_opts());
    typed(cx, &mut r, vec![(HudiInternalConfig::SkipConfigValidation, "hoodie.internal.skip.config.validation", K::Bool, Some(V::B(false)), false)]);
    splits(cx, &mut r);
    layers(cx, &mut r);
    texts(cx, &mut r);
}
