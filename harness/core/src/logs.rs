//! C09 decoding log files, C10 scanning them, C12 reading a file slice in a commit window.
use crate::rt::*;
use crate::table::{avro_block_content, meta_bytes, parquet_bytes, stamp};
use apache_avro::types::Value as Av;
use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema};
use hudi_core::config::table::HudiTableConfig;
use hudi_core::config::HudiConfigs;
use hudi_core::file_group::log_file::reader::LogFileReader;
use hudi_core::file_group::log_file::scanner::LogFileScanner;
use hudi_core::file_group::log_file::verif_hooks::*;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::file_group::FileGroup;
use hudi_core::storage::Storage;
use hudi_core::verif_hooks::InstantRange;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

const AVRO: &str = r#"{"type":"record","name":"t","fields":[{"name":"k","type":["null","string"],"default":null},{"name":"v","type":"long"}]}"#;
type R = (String, i64);
#[derive(Clone, Debug)]
struct B { version: u32, ty: u32, header: Vec<(u32, String)>, rows: Vec<R>, footer: Vec<(u32, String)>, content: Vec<u8> }
/// a place in the file that holds a size or a count
#[derive(Clone, Debug)]
struct Field_ { at: usize, width: usize, what: &'static str }
fn schema() -> Arc<Schema> { Arc::new(Schema::new(vec![Field::new("k", DataType::Utf8, true), Field::new("v", DataType::Int64, false)])) }
fn content(ty: u32, rows: &[R]) -> Vec<u8> {
    if ty == 3 {
        let s = apache_avro::Schema::parse_str(AVRO).unwrap();
        avro_block_content(&rows.iter().map(|r| apache_avro::to_avro_datum(&s, Av::Record(vec![("k".into(), Av::Union(1, Box::new(Av::String(r.0.clone())))), ("v".into(), Av::Long(r.1))])).unwrap()).collect::<Vec<_>>())
    } else if ty == 5 {
        let c: Vec<ArrayRef> = vec![Arc::new(StringArray::from(rows.iter().map(|r| r.0.clone()).collect::<Vec<_>>())), Arc::new(Int64Array::from(rows.iter().map(|r| r.1).collect::<Vec<_>>()))];
        parquet_bytes(&[RecordBatch::try_new(schema(), c).unwrap()], schema())
    } else { vec![] }
}
fn blk(r: &mut Rng, ty: u32, instant: &str, tag: usize) -> B {
    let n = match r.below(6) { 0 => 0, 1 => 1100, _ => r.range(1, 6) };
    let n = if ty == 5 && n == 0 { 1 } else { n };
    let rows: Vec<R> = if ty == 3 || ty == 5 { (0..n).map(|i| (if r.chance(1, 5) { "é#HUDI#".to_string() } else { format!("k{i}") }, (tag * 10_000 + i) as i64)).collect() } else { vec![] };
    let mut header = vec![(0, instant.to_string())];
    if ty == 3 || ty == 5 { header.push((2, AVRO.to_string())); }
    B { version: 1, ty, header, content: content(ty, &rows), rows, footer: vec![] }
}
fn command(instant: &str, target: &str, kind: &str) -> B { B { version: 1, ty: 0, header: vec![(0, instant.into()), (1, target.into()), (3, kind.into())], rows: vec![], footer: vec![], content: vec![] } }
fn encode(b: &B, out: &mut Vec<u8>, fs: &mut Vec<Field_>) {
    out.extend(b"#HUDI#");
    let mut body = vec![];
    let start = out.len() + 8;
    body.extend(b.version.to_be_bytes());
    body.extend(b.ty.to_be_bytes());
    let metas = |m: &[(u32, String)], body: &mut Vec<u8>, fs: &mut Vec<Field_>, what: &'static str| {
        fs.push(Field_ { at: start + body.len(), width: 4, what });
        let mut at = start + body.len() + 4;
        for (_, v) in m { fs.push(Field_ { at: at + 4, width: 4, what: "metadata value length" }); at += 8 + v.len(); }
        body.extend(meta_bytes(m));
    };
    if b.version > 0 { metas(&b.header, &mut body, fs, "header entries"); fs.push(Field_ { at: start + body.len(), width: 8, what: "content length" }); body.extend((b.content.len() as u64).to_be_bytes()); }
    if b.ty == 3 {
        let c = start + body.len();
        fs.push(Field_ { at: c, width: 4, what: "content version" });
        fs.push(Field_ { at: c + 4, width: 4, what: "record count" });
        let mut at = 8;
        while at + 4 <= b.content.len() { fs.push(Field_ { at: c + at, width: 4, what: "record length" }); at += 4 + u32::from_be_bytes(b.content[at..at + 4].try_into().unwrap()) as usize; if fs.len() > 60 { break; } }
    }
    body.extend(&b.content);
    if b.version == 1 { metas(&b.footer, &mut body, fs, "footer entries"); }
    let n = body.len() as u64 + if b.version == 1 { 8 } else { 0 };
    fs.push(Field_ { at: out.len(), width: 8, what: "block length" });
    out.extend(n.to_be_bytes());
    out.extend(&body);
    if b.version == 1 { fs.push(Field_ { at: out.len(), width: 8, what: "total length" }); out.extend((n + 6).to_be_bytes()); }
}
fn rows_of(bs: &[RecordBatch]) -> Option<Vec<R>> {
    let mut o = vec![];
    for b in bs {
        let k = b.column_by_name("k")?.as_any().downcast_ref::<StringArray>()?.clone();
        let v = b.column_by_name("v")?.as_any().downcast_ref::<Int64Array>()?.clone();
        for i in 0..b.num_rows() { if k.is_null(i) || v.is_null(i) { return None; } o.push((k.value(i).to_string(), v.value(i))); }
    }
    Some(o)
}
/// a block as the reader gives it: version, type, header, rows, footer
type Seen = (u32, u32, BTreeMap<u32, String>, Option<Vec<R>>, BTreeMap<u32, String>);
fn seen(b: &LogBlock) -> Seen {
    let m = |h: &HashMap<BlockMetadataKey, String>| h.iter().map(|(k, v)| (k.clone() as u32, v.clone())).collect::<BTreeMap<_, _>>();
    let v = match b.format_version { LogFormatVersion::V0 => 0, LogFormatVersion::V1 => 1, LogFormatVersion::V2 => 2, LogFormatVersion::V3 => 3 };
    let t = match b.block_type { BlockType::Command => 0, BlockType::Delete => 1, BlockType::Corrupted => 2, BlockType::AvroData => 3, BlockType::HfileData => 4, BlockType::ParquetData => 5, BlockType::CdcData => 6 };
    (v, t, m(&b.header), rows_of(&b.record_batches), m(&b.footer))
}
fn expect(b: &B) -> Seen { (b.version, b.ty, b.header.iter().cloned().collect(), Some(b.rows.clone()), if b.version == 1 { b.footer.iter().cloned().collect() } else { BTreeMap::new() }) }
struct Place { dir: Scratch, st: Arc<Storage>, conf: Arc<HudiConfigs> }
fn place(tag: &str) -> Place {
    let dir = Scratch::new(tag);
    let conf = Arc::new(HudiConfigs::new([(HudiTableConfig::BasePath.as_ref().to_string(), dir.uri())]));
    let st = Storage::new(Arc::new(HashMap::new()), conf.clone()).unwrap();
    Place { dir, st, conf }
}
fn read(cx: &Ctx, p: &Place, bytes: &[u8], w: &InstantRange, case: &Value) -> (Result<Result<Vec<Seen>, String>, String>, usize) {
    p.dir.write("f.log", bytes);
    watch(case);
    let got = guard(|| cx.rt.block_on(async {
        let mut r = LogFileReader::new(p.conf.clone(), p.st.clone(), "f.log").await.map_err(|e| e.to_string())?;
        r.read_all_blocks(w).map(|v| v.iter().map(seen).collect()).map_err(|e| e.to_string())
    }));
    (got, unwatch())
}
fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(600) { s.push_str(&format!("{x:02x}")); } if b.len() > 600 { s.push_str(&format!("..({} bytes)", b.len())); } s }
/// a panic of the Avro or the Parquet library over damaged content it was handed
fn in_library(e: &str) -> bool { e.contains("/apache-avro-") || e.contains("/parquet-") }
const MEM: usize = 600 << 20;

pub fn c09(cx: &mut Ctx) {
    cx.rule("log files of up to five blocks (avro, parquet, rollback and unsupported ones) with headers and footers, decoded back; then cut at every place, every size field overwritten, bytes flipped; non-trivial = at least one block");
    let p = place("c09");
    let all = InstantRange::up_to("20991231235959999", "utc");
    let mut r = cx.rng(9);
    for round in 0..if cx.thorough { 40_000 } else { 1_500 } {
        if cx.done() { return; }
        let nb = r.below(6).min(if r.chance(1, 2) { 2 } else { 5 });
        let mut bs: Vec<B> = vec![];
        for i in 0..nb {
            let ts = stamp(r.below(1 << 30) as u64, r.chance(1, 3));
            let ty = match r.below(10) { 0..=4 => 3, 5..=7 => 5, _ => 0 };
            let mut b = if ty == 0 { command(&ts, &stamp(r.below(1 << 30) as u64, false), "0") } else { blk(&mut r, ty, &ts, i) };
            if ty == 0 && r.chance(1, 3) { b.content = b"#HUDI#\0\0\0\0anything".to_vec(); }
            for k in [4u32, 5, 6] { if r.chance(1, 5) { b.header.push((k, ["", "x", "é", "#HUDI#"][r.below(4)].into())); } if r.chance(1, 6) { b.footer.push((k, "f".into())); } }
            if r.chance(1, 12) { b.version = r.range(2, 3) as u32; }
            bs.push(b);
        }
        let (mut bytes, mut fs, mut ends) = (vec![], vec![], vec![0usize]);
        for b in &bs { encode(b, &mut bytes, &mut fs); ends.push(bytes.len()); }
        let want: Vec<Seen> = bs.iter().map(expect).collect();
        let case = |what: &str, b: &[u8]| json!({"blocks": bs.iter().map(|b| format!("v{} type {} header {:?} rows {} content {} bytes footer {:?}", b.version, b.ty, b.header.iter().filter(|h| h.0 != 2).collect::<Vec<_>>(), b.rows.len(), b.content.len(), b.footer)).collect::<Vec<_>>(), "change": what, "bytes": hex(b)});
        cx.case(nb > 0, (round, bytes.len()), || case("none", &bytes));
        let (got, mem) = read(cx, &p, &bytes, &all, &case("none", &bytes));
        if !matches!(&got, Ok(Ok(v)) if *v == want) || mem > MEM { cx.violation("decode", "a log file is not decoded to the blocks it encodes", json!({"case": case("none", &bytes), "got": format!("{got:?}").chars().take(900).collect::<String>()})); continue; }
        // what is not the whole file is a prefix of it, or an error
        let mut attempt = |cx: &mut Ctx, key: &str, what: String, b: &[u8], must_fail: bool, exact: Option<&[Seen]>, any: bool| {
            let c = case(&what, b);
            let (got, mem) = read(cx, &p, b, &all, &c);
            cx.evals += 1;
            let bad = match &got { Err(e) => !in_library(e), Ok(Err(_)) => exact.is_some(), Ok(Ok(v)) => must_fail || exact.is_some_and(|e| v != e) || !any && !(v.len() <= want.len() && v[..] == want[..v.len()]) };
            if bad { cx.violation(key, "a damaged log file is read as something else than its undamaged blocks or an error", json!({"case": c, "got": format!("{got:?}").chars().take(900).collect::<String>()})); }
            else if mem > MEM { cx.violation("memory", "memory is reserved out of proportion to the file", json!({"case": c, "bytes reserved at once": mem})); }
        };
        let cuts: Vec<usize> = if bytes.len() <= 700 && r.chance(1, 3) { (0..bytes.len()).collect() } else { (0..12).map(|_| r.below(bytes.len() + 1)).chain(ends.iter().flat_map(|e| [e.saturating_sub(1), *e, e + 1, e + 5, e + 6, e + 7, e + 13, e + 14]).filter(|c| *c <= bytes.len())).collect() };
        for c in cuts {
            let full = ends.iter().filter(|e| **e <= c).count() - 1;
            let rest = c - ends[full];
            if rest < 6 { attempt(cx, "cut", format!("cut to {c} bytes"), &bytes[..c], false, Some(&want[..full]), false); } else { attempt(cx, "cut", format!("cut to {c} bytes"), &bytes[..c], true, None, false); }
        }
        // every size field must agree with the file
        let mut order: Vec<usize> = (0..fs.len()).collect();
        r.shuffle(&mut order);
        for &i in order.iter().take(10) {
            let f = fs[i].clone();
            let mut b = bytes.clone();
            let old = b[f.at..f.at + f.width].iter().fold(0u64, |a, x| a << 8 | *x as u64);
            let top = if f.width == 4 { u32::MAX as u64 } else { u64::MAX };
            let new = match r.below(10) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => 0, 3 => top, 4 => top >> 1, 5 => 0x7fff_fff0, 6 => r.next(), 7 => r.below(64) as u64, 8 => old << 8, _ => bytes.len() as u64 } & top;
            if new == old { continue; }
            b[f.at..f.at + f.width].copy_from_slice(&new.to_be_bytes()[8 - f.width..]);
            // a changed length may happen to frame the same bytes only where the blocks are the same
            attempt(cx, "size", format!("{} at {} set from {old} to {new}", f.what, f.at), &b, true, None, false);
        }
        // types, versions and magic that are unknown
        for (k, &s) in ends[..ends.len() - 1].iter().enumerate() {
            if !r.chance(1, 3) { continue; }
            let mut b = bytes.clone();
            match r.below(4) {
                0 => { let i = r.below(6); b[s + i] ^= 1 << r.below(8); attempt(cx, "magic", format!("magic of block {k}"), &b, true, None, false); }
                1 => { let v = *r.pick(&[0u32, 4, 5, 255, u32::MAX, 1 << 24]); b[s + 14..s + 18].copy_from_slice(&v.to_be_bytes()); attempt(cx, "version", format!("version {v} of block {k}"), &b, true, None, false); }
                2 => { let v = *r.pick(&[1u32, 2, 4, 6, 7, 8, 255, u32::MAX, 0x0300_0000]); b[s + 18..s + 22].copy_from_slice(&v.to_be_bytes()); attempt(cx, "type", format!("type {v} of block {k}"), &b, true, None, false); }
                _ => { b.splice(s..s, [r.next() as u8]); attempt(cx, "stray", format!("a stray byte before block {k}"), &b, true, None, false); }
            }
        }
        // anything at the end, anything in the middle: no panic, no endless loop, no huge allocation
        let mut b = bytes.clone();
        let extra: Vec<u8> = (0..r.below(40)).map(|_| r.next() as u8).collect();
        b.extend(&extra);
        attempt(cx, "tail", format!("{} bytes appended", extra.len()), &b, extra.len() >= 6, if extra.len() < 6 { Some(&want) } else { None }, false);
        for _ in 0..4 {
            let mut b = bytes.clone();
            if b.is_empty() { break; }
            let at = r.below(b.len());
            // the contents of parquet blocks are the parquet reader's affair
            if bs.iter().zip(&ends).zip(&ends[1..]).any(|((x, s), e)| x.ty == 5 && (*s..*e).contains(&at) && at > s + 40) { continue; }
            b[at] = r.next() as u8;
            attempt(cx, "flip", format!("byte {at} overwritten"), &b, false, None, true);
        }
    }
    let mut r = cx.rng(91);
    for _ in 0..if cx.thorough { 60_000 } else { 4_000 } { // bytes that are no log file
        if cx.done() { return; }
        let n = r.below(80);
        let mut b: Vec<u8> = if r.chance(3, 4) { b"#HUDI#".to_vec() } else { vec![] };
        b.extend((0..n).map(|_| if r.chance(1, 2) { r.below(4) as u8 } else { r.next() as u8 }));
        let c = json!({"bytes": hex(&b)});
        cx.case(n > 6, &b, || c.clone());
        let (got, mem) = read(cx, &p, &b, &all, &c);
        if matches!(&got, Err(e) if !in_library(e)) || matches!(&got, Ok(Ok(v)) if b.len() >= 6 && v.is_empty()) { cx.violation("noise", "bytes that are no log file are not refused", json!({"case": c, "got": format!("{got:?}")})); }
        if mem > MEM { cx.violation("memory", "memory is reserved out of proportion to the file", json!({"case": c, "bytes reserved at once": mem})); }
    }
}

// ---- C10 -----------------------------------------------------------------------------------------
fn point(s: &str) -> chrono::NaiveDateTime { chrono::NaiveDateTime::parse_from_str(&s[..14], "%Y%m%d%H%M%S").unwrap() + chrono::Duration::milliseconds(if s.len() == 17 { s[14..].parse().unwrap() } else { 0 }) }
pub fn c10(cx: &mut Ctx) {
    cx.rule("up to four log files of data, rollback, unsupported and malformed blocks over a few instants of second and millisecond precision, scanned with every kind of window; non-trivial = a rollback of an instant that has a block");
    let p = place("c10");
    let mut r = cx.rng(10);
    for round in 0..if cx.thorough { 200_000 } else { 8_000 } {
        if cx.done() { return; }
        let times: Vec<String> = { let mut v: Vec<String> = (0..r.range(2, 6)).map(|i| { let ms = (i as u64) * [0, 1, 1000][r.below(3)] + r.below(3) as u64 * 500 + i as u64; if r.chance(1, 4) { stamp(ms / 1000 * 1000, true) } else { stamp(ms, false) } }).collect(); v.dedup(); v };
        let odd = r.chance(1, 8); // a block that cannot be read
        let mut files: Vec<Vec<B>> = vec![];
        let mut tag = 0;
        for _ in 0..r.range(1, 4) {
            let mut f = vec![];
            for _ in 0..r.below(5) {
                let ts = r.pick(&times).clone();
                tag += 1;
                f.push(match r.below(12) {
                    0..=2 => command(&ts, times[r.below(times.len())].as_str(), "0"),
                    3 if odd => { let mut b = blk(&mut r, 3, &ts, tag); b.ty = *r.pick(&[1, 2, 4, 6]); b }
                    4 if odd => command(&ts, times[r.below(times.len())].as_str(), *r.pick(&["1", "x", ""])),
                    5 if odd => { let mut b = command(&ts, "", "0"); let k = r.below(3); b.header.remove(k); b }
                    6..=8 => blk(&mut r, 5, &ts, tag),
                    _ => blk(&mut r, 3, &ts, tag),
                });
            }
            files.push(f);
        }
        let bound = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(match r.below(4) { 0 => stamp(r.below(8000) as u64, false), 1 => stamp(r.below(8) as u64 * 1000, true), _ => r.pick(&times).clone() }) };
        let (s, e) = (bound(&mut r), bound(&mut r));
        let (si, ei) = if r.chance(2, 3) { (false, true) } else { (r.chance(1, 2), r.chance(1, 2)) };
        let inside = |t: &str| { let t = point(t); s.as_ref().map_or(true, |s| if si { t >= point(s) } else { t > point(s) }) && e.as_ref().map_or(true, |e| if ei { t <= point(e) } else { t < point(e) }) };
        let gone: Vec<&String> = files.iter().flatten().filter(|b| b.ty == 0).filter_map(|b| b.header.iter().find(|h| h.0 == 1).map(|h| &h.1)).collect();
        let inst = |b: &B| b.header.iter().find(|h| h.0 == 0).map(|h| h.1.clone());
        let mut want: Vec<R> = vec![];
        let (mut fails, mut may_fail) = (false, false);
        for b in files.iter().flatten() {
            let Some(t) = inst(b) else { fails = true; continue };
            match b.ty {
                0 => if !(b.header.iter().any(|h| h.0 == 3 && h.1 == "0") && b.header.iter().any(|h| h.0 == 1)) { fails = true },
                3 | 5 => if inside(&t) && !gone.contains(&&t) { want.extend(b.rows.iter().cloned()) },
                _ => if inside(&t) { if gone.contains(&&t) { may_fail = true } else { fails = true } },
            }
        }
        for (i, f) in files.iter().enumerate() { let (mut o, mut fs) = (vec![], vec![]); for b in f { encode(b, &mut o, &mut fs); } p.dir.write(&format!("f{i}.log"), &o); }
        let case = json!({"files": files.iter().map(|f| f.iter().map(|b| format!("type {} {:?} rows {:?}", b.ty, b.header.iter().filter(|h| h.0 != 2).collect::<Vec<_>>(), b.rows.first())).collect::<Vec<_>>()).collect::<Vec<_>>(), "window": [format!("{s:?} inclusive {si}"), format!("{e:?} inclusive {ei}")]});
        cx.case(files.iter().flatten().any(|b| matches!(b.ty, 3 | 5) && inst(b).is_some_and(|t| gone.contains(&&t))), round, || case.clone());
        let w = InstantRange::new("utc".into(), s.clone(), e.clone(), si, ei);
        watch(&case);
        let got = guard(|| cx.rt.block_on(LogFileScanner::new(p.conf.clone(), p.st.clone()).scan((0..files.len()).map(|i| format!("f{i}.log")).collect(), &w)).map_err(|e| e.to_string()));
        unwatch();
        let ok = match &got { Err(_) => false, Ok(Err(_)) => fails || may_fail, Ok(Ok(v)) => !fails && rows_of(&v.iter().flatten().cloned().collect::<Vec<_>>()).as_ref() == Some(&want) };
        if !ok { cx.violation(if fails { "silent" } else { "scan" }, if fails { "a block that cannot be applied is silently ignored" } else { "scanning does not return the blocks of the window that are not rolled back, in order" }, json!({"case": case, "expected": if fails { json!("an error") } else { json!(format!("{want:?}").chars().take(500).collect::<String>()) }, "got": match got { Ok(Ok(v)) => format!("{:?}", rows_of(&v.into_iter().flatten().collect::<Vec<_>>())).chars().take(500).collect(), x => format!("{:?}", x.map(|y| y.map(|_| ()))) }})); }
    }
}

// ---- C12 -----------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Rec { commit: String, seq: String, key: String, ord: i64, v: i64 }
fn rec_schema(meta: bool) -> Arc<Schema> {
    let mut f: Vec<Field> = if meta { crate::table::META.iter().map(|m| Field::new(*m, DataType::Utf8, true)).collect() } else { vec![] };
    f.push(Field::new("ord", DataType::Int64, true)); f.push(Field::new("v", DataType::Int64, true));
    Arc::new(Schema::new(f))
}
fn rec_batch(rows: &[Rec], meta: bool) -> RecordBatch {
    let s = |f: &dyn Fn(&Rec) -> String| -> ArrayRef { Arc::new(StringArray::from(rows.iter().map(f).collect::<Vec<_>>())) };
    let mut c = if meta { vec![s(&|r| r.commit.clone()), s(&|r| r.seq.clone()), s(&|r| r.key.clone()), s(&|_| String::new()), s(&|_| "f".into())] } else { vec![] };
    c.push(Arc::new(Int64Array::from(rows.iter().map(|r| r.ord).collect::<Vec<_>>())));
    c.push(Arc::new(Int64Array::from(rows.iter().map(|r| r.v).collect::<Vec<_>>())));
    RecordBatch::try_new(rec_schema(meta), c).unwrap()
}
fn rec_avro(meta: bool, extra: bool) -> String {
    let mut f: Vec<Value> = if meta { crate::table::META.iter().map(|m| json!({"name": m, "type": ["null", "string"], "default": null})).collect() } else { vec![] };
    f.push(json!({"name": "v", "type": ["null", "long"], "default": null}));
    f.push(json!({"name": "ord", "type": ["null", "long"], "default": null}));
    if extra { f.insert(0, json!({"name": "added", "type": ["null", "long"], "default": null})); }
    json!({"type": "record", "name": "r", "fields": f}).to_string()
}
fn rec_content(rows: &[Rec], meta: bool, extra: bool) -> Vec<u8> {
    let s = apache_avro::Schema::parse_str(&rec_avro(meta, extra)).unwrap();
    let u = |v: Av| Av::Union(1, Box::new(v));
    avro_block_content(&rows.iter().map(|r| {
        let mut f: Vec<(String, Av)> = if extra { vec![("added".into(), u(Av::Long(7)))] } else { vec![] };
        if meta { for (n, v) in crate::table::META.iter().zip([&r.commit, &r.seq, &r.key, &String::new(), &"f".to_string()]) { f.push((n.to_string(), u(Av::String(v.clone())))); } }
        f.push(("v".into(), u(Av::Long(r.v)))); f.push(("ord".into(), u(Av::Long(r.ord))));
        apache_avro::to_avro_datum(&s, Av::Record(f)).unwrap()
    }).collect::<Vec<_>>())
}
fn recs_from(b: &RecordBatch, meta: bool) -> Option<Vec<Rec>> {
    let s = |n: &str| b.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<StringArray>().cloned());
    let l = |n: &str| b.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<Int64Array>().cloned());
    let (o, v) = (l("ord")?, l("v")?);
    let mut out = vec![];
    let m = if meta { Some((s("_hoodie_commit_time")?, s("_hoodie_commit_seqno")?, s("_hoodie_record_key")?)) } else { None };
    for i in 0..b.num_rows() { out.push(match &m { Some((c, q, k)) => Rec { commit: c.value(i).into(), seq: q.value(i).into(), key: k.value(i).into(), ord: o.value(i), v: v.value(i) }, None => Rec { commit: String::new(), seq: String::new(), key: String::new(), ord: o.value(i), v: v.value(i) } }); }
    out.sort();
    Some(out)
}
pub fn c12(cx: &mut Ctx) {
    cx.rule("a file slice of a base file with rows of several commit times and up to three log files (avro, parquet, rollbacks, reordered and added columns), read with every kind of commit window, with and without meta fields, merge strategy and read-optimized mode; non-trivial = a window that leaves out some of the rows");
    let mut r = cx.rng(12);
    for round in 0..if cx.thorough { 60_000 } else { 2_500 } {
        if cx.done() { return; }
        let dir = Scratch::new("c12");
        let meta = r.chance(5, 6);
        let append = !meta || r.chance(1, 4);
        let seconds = r.below(3); // 0: all milliseconds, 1: all seconds, 2: both
        let ts = |r: &mut Rng| { let n = r.below(7) as u64; let sec = seconds == 1 || seconds == 2 && r.chance(1, 2); if sec { stamp(n / 2 * 1000, true) } else { stamp(n * 500 + r.below(2) as u64, false) } };
        let mut uid = 0i64;
        let row = |r: &mut Rng, t: String, uid: &mut i64| { *uid += 1; Rec { seq: format!("{t}_0_{:06}", *uid), commit: t, key: format!("k{}", r.below(6)), ord: r.below(4) as i64, v: *uid } };
        // a base file holds one row per key
        let mut base: Vec<Rec> = (0..r.below(8)).map(|_| { let t = ts(&mut r); row(&mut r, t, &mut uid) }).collect();
        for (i, b) in base.iter_mut().enumerate() { b.key = format!("k{i}"); }
        let bc = stamp(100_000, false);
        dir.write(&format!("p/f-0_0-1-1_{bc}.parquet"), &parquet_bytes(&[rec_batch(&base, meta)], rec_schema(meta)));
        let mut fg = FileGroup::new_with_base_file_name("f-0".to_string(), "p".to_string(), &format!("f-0_0-1-1_{bc}.parquet")).unwrap();
        let mut blocks: Vec<(String, Vec<Rec>)> = vec![];
        let mut gone: Vec<String> = vec![];
        let nl = r.below(4);
        for l in 0..nl {
            let (mut o, mut fs) = (vec![], vec![]);
            for _ in 0..r.range(1, 3) {
                let t = ts(&mut r);
                if r.chance(1, 6) { let at = ts(&mut r); encode(&command(&at, &t, "0"), &mut o, &mut fs); gone.push(t); continue; }
                let rows: Vec<Rec> = (0..r.range(1, 5)).map(|_| row(&mut r, t.clone(), &mut uid)).collect();
                let extra = r.chance(1, 5);
                let avro = r.chance(1, 2);
                let content = if avro { rec_content(&rows, meta, extra) } else { parquet_bytes(&[rec_batch(&rows, meta)], rec_schema(meta)) };
                encode(&B { version: 1, ty: if avro { 3 } else { 5 }, header: vec![(0, t.clone()), (2, rec_avro(meta, extra))], rows: vec![], footer: vec![], content }, &mut o, &mut fs);
                blocks.push((t, rows));
            }
            let name = format!(".f-0_{bc}.log.{}_0-1-1", l + 8);
            dir.write(&format!("p/{name}"), &o);
            fg.add_log_file_from_name(&name).unwrap();
        }
        let bound = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(if r.chance(1, 2) { ts(r) } else if r.chance(1, 2) { stamp(r.below(5) as u64 * 1000, true) } else { stamp(r.below(4000) as u64, false) }) };
        let (s, e) = (bound(&mut r), bound(&mut r));
        let ro = r.chance(1, 5);
        let inside = |t: &str| s.as_ref().map_or(true, |s| point(t) > point(s)) && e.as_ref().map_or(true, |e| point(t) <= point(e));
        let b: Vec<Rec> = base.iter().filter(|x| !meta || s.is_none() || inside(&x.commit)).cloned().collect();
        let l: Vec<Rec> = if ro { vec![] } else { blocks.iter().filter(|x| inside(&x.0) && !gone.contains(&x.0)).flat_map(|x| x.1.clone()).collect() };
        let mut want: Vec<Rec> = vec![];
        if append || ro || nl == 0 { want.extend(b.iter().cloned()); want.extend(l.iter().cloned()); }
        else { let mut m: BTreeMap<String, Rec> = BTreeMap::new(); for x in b.iter().chain(&l) { let w = m.entry(x.key.clone()).or_insert(x.clone()); if (x.ord, &x.seq) > (w.ord, &w.seq) { *w = x.clone(); } } want.extend(m.into_values()); }
        if !meta { for w in want.iter_mut() { *w = Rec { commit: String::new(), seq: String::new(), key: String::new(), ..w.clone() }; } }
        want.sort();
        let mut opts: Vec<(String, String)> = vec![("hoodie.table.precombine.field".into(), "ord".into()), ("hoodie.populate.meta.fields".into(), meta.to_string())];
        if append { opts.push(("hoodie.table.record.merge.strategy".into(), "append_only".into())); }
        if let Some(s) = &s { opts.push(("hoodie.read.file_group.start_timestamp".into(), s.clone())); }
        if let Some(e) = &e { opts.push(("hoodie.read.file_group.end_timestamp".into(), e.clone())); }
        if ro { opts.push(("hoodie.read.use.read_optimized.mode".into(), "true".into())); }
        let case = json!({"base": base.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "log blocks": blocks.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "rolled back": gone, "options": opts});
        cx.case(base.iter().any(|x| !inside(&x.commit)), round, || case.clone());
        let slice = fg.get_file_slice_as_of("29991231235959999").unwrap().clone();
        watch(&case);
        let got = guard(|| { let rd = FileGroupReader::new_with_options(&dir.uri(), opts.clone()).map_err(|e| e.to_string())?; cx.rt.block_on(rd.read_file_slice(&slice)).map_err(|e| e.to_string()) });
        unwatch();
        let ok = matches!(&got, Ok(Ok(x)) if recs_from(x, meta).as_ref() == Some(&want));
        if !ok { cx.violation("slice", "reading a file slice does not return the rows of the commit window", json!({"case": case, "expected": want.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "got": match &got { Ok(Ok(x)) => format!("{:?}", recs_from(x, meta)), x => format!("{:?}", x.as_ref().map(|y| y.as_ref().map(|_| ()))) }})); }
    }
}
