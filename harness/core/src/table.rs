//! Whole tables on disk: generated histories, and what a reader must see of them.
use crate::rt::*;
use apache_avro::types::Value as Av;
use arrow_array::{Array, ArrayRef, Int32Array, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema};
use hudi_core::file_group::file_slice::FileSlice;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const META: [&str; 5] = ["_hoodie_commit_time", "_hoodie_commit_seqno", "_hoodie_record_key", "_hoodie_partition_path", "_hoodie_file_name"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Row { pub key: String, pub ts: i64, pub val: i32, pub commit: String, pub seq: String }
#[derive(Clone, Debug)]
pub struct Blk { pub instant: String, pub rows: Vec<Row>, pub avro: bool, pub dead: bool }
#[derive(Clone, Debug)]
pub struct Log { pub name: String, pub version: u64, pub instant: String, pub blocks: Vec<Blk> }
#[derive(Clone, Debug)]
pub struct Slice { pub commit: String, pub base: String, pub rows: Vec<Row>, pub logs: Vec<Log> }
#[derive(Clone, Debug)]
pub struct Fg { pub part: usize, pub id: String, pub slices: Vec<Slice>, pub replaced: Option<String> }
#[derive(Clone, Debug)]
pub struct Write { pub fg: usize, pub slice: usize, pub log: Option<usize>, pub from: usize }
#[derive(Clone, Debug)]
pub struct Inst { pub ts: String, pub action: &'static str, pub completed: bool, pub writes: Vec<Write>, pub replaces: Vec<usize> }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { Str, Int }
pub struct Tbl {
    pub dir: Scratch, pub mor: bool, pub hive: bool, pub urlenc: bool, pub precombine: bool, pub meta: bool,
    pub fields: Vec<(String, Ty)>, pub schema_order: Vec<usize>, pub parts: Vec<Vec<String>>,
    pub insts: Vec<Inst>, pub fgs: Vec<Fg>, pub trace: Vec<String>, pub seconds: bool,
}

pub fn enc(s: &str) -> String { // as the writer escapes a partition value
    let mut o = String::new();
    for b in s.bytes() { if b.is_ascii_alphanumeric() || b"-_.!~*'()".contains(&b) { o.push(b as char) } else { o.push_str(&format!("%{b:02X}")) } }
    o
}
impl Tbl {
    pub fn new(tag: &str) -> Self {
        Tbl { dir: Scratch::new(tag), mor: false, hive: false, urlenc: false, precombine: true, meta: true, fields: vec![("city".into(), Ty::Str)], schema_order: vec![0], parts: vec![vec!["a".into()], vec!["b".into()]], insts: vec![], fgs: vec![], trace: vec![], seconds: false }
    }
    pub fn part_path(&self, p: usize) -> String {
        self.fields.iter().zip(&self.parts[p]).map(|((n, _), v)| { let v = if self.urlenc { enc(v) } else { v.clone() }; if self.hive { format!("{n}={v}") } else { v } }).collect::<Vec<_>>().join("/")
    }
    pub fn partitioned(&self) -> bool { !self.fields.is_empty() }
    pub fn props(&self) -> String {
        let mut s = format!("# generated\nhoodie.table.name=t\nhoodie.table.type={}\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.base.file.format=PARQUET\nhoodie.datasource.write.hive_style_partitioning={}\nhoodie.datasource.write.partitionpath.urlencode={}\nhoodie.datasource.write.drop.partition.columns=false\nhoodie.table.recordkey.fields=id\nhoodie.populate.meta.fields={}\n",
            if self.mor { "MERGE_ON_READ" } else { "COPY_ON_WRITE" }, self.hive, self.urlenc, self.meta);
        if self.precombine { s.push_str("hoodie.table.precombine.field=ts\n"); }
        if self.partitioned() { s.push_str(&format!("hoodie.table.partition.fields={}\nhoodie.table.keygenerator.class=org.apache.hudi.keygen.ComplexKeyGenerator\n", self.fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(","))); }
        else { s.push_str("hoodie.table.keygenerator.class=org.apache.hudi.keygen.NonpartitionedKeyGenerator\n"); }
        s
    }
    pub fn schema(&self) -> Arc<Schema> {
        let mut f: Vec<Field> = if self.meta { META.iter().map(|m| Field::new(*m, DataType::Utf8, true)).collect() } else { vec![] };
        f.push(Field::new("id", DataType::Utf8, true));
        f.push(Field::new("ts", DataType::Int64, true));
        f.push(Field::new("val", DataType::Int32, true));
        for &i in &self.schema_order { let (n, t) = &self.fields[i]; f.push(Field::new(n, if *t == Ty::Str { DataType::Utf8 } else { DataType::Int32 }, true)); }
        Arc::new(Schema::new(f))
    }
    pub fn batch(&self, rows: &[Row], part: usize, file: &str) -> RecordBatch {
        let pp = self.part_path(part);
        let s = |f: &dyn Fn(&Row) -> String| -> ArrayRef { Arc::new(StringArray::from(rows.iter().map(f).collect::<Vec<_>>())) };
        let mut c: Vec<ArrayRef> = if self.meta { vec![s(&|r| r.commit.clone()), s(&|r| r.seq.clone()), s(&|r| r.key.clone()), s(&|_| pp.clone()), s(&|_| file.to_string())] } else { vec![] };
        c.push(s(&|r| r.key.clone()));
        c.push(Arc::new(Int64Array::from(rows.iter().map(|r| r.ts).collect::<Vec<_>>())));
        c.push(Arc::new(Int32Array::from(rows.iter().map(|r| r.val).collect::<Vec<_>>())));
        for &i in &self.schema_order {
            let v = self.parts[part][i].clone();
            c.push(if self.fields[i].1 == Ty::Str { s(&|_| v.clone()) } else { Arc::new(Int32Array::from(vec![v.parse::<i32>().ok(); rows.len()])) });
        }
        RecordBatch::try_new(self.schema(), c).unwrap()
    }
    pub fn parquet(&self, rows: &[Row], part: usize, file: &str) -> Vec<u8> { parquet_bytes(&[self.batch(rows, part, file)], self.schema()) }
    pub fn avro_schema(&self) -> String {
        let mut f: Vec<Value> = if self.meta { META.iter().map(|m| json!({"name": m, "type": ["null", "string"], "default": null})).collect() } else { vec![] };
        f.push(json!({"name": "id", "type": ["null", "string"], "default": null}));
        f.push(json!({"name": "ts", "type": ["null", "long"], "default": null}));
        f.push(json!({"name": "val", "type": ["null", "int"], "default": null}));
        for &i in &self.schema_order { let (n, t) = &self.fields[i]; f.push(json!({"name": n, "type": ["null", if *t == Ty::Str { "string" } else { "int" }], "default": null})); }
        json!({"type": "record", "name": "t_record", "namespace": "hoodie.t", "fields": f}).to_string()
    }
    pub fn avro_content(&self, rows: &[Row], part: usize, file: &str) -> Vec<u8> {
        let schema = apache_avro::Schema::parse_str(&self.avro_schema()).unwrap();
        let pp = self.part_path(part);
        let u = |v: Av| Av::Union(1, Box::new(v));
        let recs = rows.iter().map(|r| {
            let mut f: Vec<(String, Av)> = if self.meta { META.iter().zip([&r.commit, &r.seq, &r.key, &pp, &file.to_string()]).map(|(n, v)| (n.to_string(), u(Av::String(v.clone())))).collect() } else { vec![] };
            f.push(("id".into(), u(Av::String(r.key.clone()))));
            f.push(("ts".into(), u(Av::Long(r.ts))));
            f.push(("val".into(), u(Av::Int(r.val))));
            for &i in &self.schema_order { let v = &self.parts[part][i]; f.push((self.fields[i].0.clone(), u(if self.fields[i].1 == Ty::Str { Av::String(v.clone()) } else { Av::Int(v.parse().unwrap()) }))); }
            apache_avro::to_avro_datum(&schema, Av::Record(f)).unwrap()
        }).collect::<Vec<_>>();
        avro_block_content(&recs)
    }
    pub fn log_bytes(&self, l: &Log, part: usize) -> Vec<u8> {
        let mut out = vec![];
        for b in &l.blocks {
            let (ty, content) = if b.avro { (3u32, self.avro_content(&b.rows, part, &l.name)) } else { (5u32, self.parquet(&b.rows, part, &l.name)) };
            out.extend(block(ty, &[(0, b.instant.clone()), (2, self.avro_schema())], &content));
        }
        out
    }
    pub fn rel(&self, part: usize, name: &str) -> String { let p = self.part_path(part); if p.is_empty() { name.into() } else { format!("{p}/{name}") } }
    pub fn put(&self, part: usize, name: &str, data: &[u8]) { self.dir.write(&self.rel(part, name), data); self.dir.write(&self.rel(part, ".hoodie_partition_metadata"), b"commitTime=0\n"); }
    pub fn write_props(&self) { self.dir.write(".hoodie/hoodie.properties", self.props().as_bytes()); }

    /// commit metadata of an instant, with stats in the order given
    pub fn commit_json(&self, i: usize, r: &mut Rng) -> Value {
        let inst = &self.insts[i];
        let mut pw = serde_json::Map::new();
        let mut ws: Vec<&Write> = inst.writes.iter().collect();
        r.shuffle(&mut ws);
        for w in ws {
            let fg = &self.fgs[w.fg];
            let s = &fg.slices[w.slice];
            let mut st = json!({"fileId": fg.id, "path": self.rel(fg.part, &s.base), "cdcStats": null, "prevCommit": "null", "numWrites": s.rows.len(), "partitionPath": self.part_path(fg.part)});
            if let Some(l) = w.log {
                st["path"] = json!(self.rel(fg.part, &s.logs[l].name));
                st["baseFile"] = json!(s.base);
                let ls: Vec<&str> = s.logs[w.from..=l].iter().map(|x| x.name.as_str()).collect();
                st["logFiles"] = json!(ls);
                st["logVersion"] = json!(s.logs[l].version);
            }
            pw.entry(self.part_path(fg.part)).or_insert_with(|| json!([])).as_array_mut().unwrap().push(st);
        }
        let mut o = json!({"partitionToWriteStats": pw, "compacted": false, "extraMetadata": {"schema": self.avro_schema()}, "operationType": "UPSERT"});
        if inst.action == "replacecommit" {
            let mut pr = serde_json::Map::new();
            for &g in &inst.replaces { pr.entry(self.part_path(self.fgs[g].part)).or_insert_with(|| json!([])).as_array_mut().unwrap().push(json!(self.fgs[g].id)); }
            o["partitionToReplaceFileIds"] = Value::Object(pr);
            o["operationType"] = json!("INSERT_OVERWRITE");
        }
        o
    }
    pub fn write_instant(&self, i: usize, r: &mut Rng) {
        let inst = &self.insts[i];
        self.dir.write(&format!(".hoodie/{}.{}.requested", inst.ts, inst.action), b"");
        let inflight = if inst.action == "commit" { format!("{}.inflight", inst.ts) } else { format!("{}.{}.inflight", inst.ts, inst.action) };
        self.dir.write(&format!(".hoodie/{inflight}"), b"");
        if inst.completed { self.dir.write(&format!(".hoodie/{}.{}", inst.ts, inst.action), serde_json::to_vec(&self.commit_json(i, r)).unwrap().as_slice()); }
    }
    /// files as given by a plan
    pub fn plan_as_of(&self, t: &str) -> Plan {
        let mut p = Plan::new();
        for fg in &self.fgs {
            if fg.replaced.as_deref().is_some_and(|x| x <= t) { continue; }
            if let Some(s) = fg.slices.iter().filter(|s| s.commit.as_str() <= t).last() {
                p.insert((self.part_path(fg.part), fg.id.clone()), (s.base.clone(), s.logs.iter().map(|l| l.name.clone()).collect()));
            }
        }
        p
    }
    pub fn rows_of(&self, base: &[&Row], logs: &[&Row]) -> Vec<Row> {
        let mut out: Vec<Row> = vec![];
        if !self.precombine || logs.is_empty() && base.iter().map(|r| &r.key).collect::<BTreeSet<_>>().len() == base.len() {
            out.extend(base.iter().map(|r| (*r).clone()));
            out.extend(logs.iter().map(|r| (*r).clone()));
        } else {
            let mut m: BTreeMap<&str, &Row> = BTreeMap::new();
            for r in base.iter().chain(logs) { let e = m.entry(&r.key).or_insert(r); if (r.ts, &r.seq) > (e.ts, &e.seq) { *e = r; } }
            out.extend(m.values().map(|r| (*r).clone()));
        }
        out
    }
    pub fn rows_as_of(&self, t: &str, read_optimized: bool) -> Vec<Row> {
        let mut out = vec![];
        for fg in &self.fgs {
            if fg.replaced.as_deref().is_some_and(|x| x <= t) { continue; }
            if let Some(s) = fg.slices.iter().filter(|s| s.commit.as_str() <= t).last() {
                let logs: Vec<&Row> = if read_optimized { vec![] } else { s.logs.iter().flat_map(|l| &l.blocks).filter(|b| !b.dead && b.instant.as_str() <= t).flat_map(|b| &b.rows).collect() };
                out.extend(self.rows_of(&s.rows.iter().collect::<Vec<_>>(), &logs));
            }
        }
        out.sort();
        out
    }
    /// slices of the files named by the completed commits in (a, e], file groups replaced in the window left out
    pub fn plan_between(&self, a: &str, e: &str) -> Vec<(usize, usize, BTreeSet<usize>)> {
        let mut m: BTreeMap<usize, BTreeMap<usize, BTreeSet<usize>>> = BTreeMap::new();
        let mut gone: BTreeSet<usize> = BTreeSet::new();
        for i in &self.insts {
            if !i.completed || i.ts.as_str() <= a || i.ts.as_str() > e { continue; }
            for w in &i.writes { let s = m.entry(w.fg).or_default().entry(w.slice).or_default(); if let Some(l) = w.log { s.extend(w.from..=l); } }
            gone.extend(i.replaces.iter());
        }
        m.into_iter().filter(|(g, _)| !gone.contains(g)).filter_map(|(g, s)| s.into_iter().filter(|(i, _)| self.fgs[g].slices[*i].commit.as_str() <= e).last().map(|(i, l)| (g, i, l))).collect()
    }
    pub fn rows_between(&self, a: &str, e: &str) -> Vec<Row> {
        let inw = |t: &str| t > a && t <= e;
        let mut out = vec![];
        for (g, i, ls) in self.plan_between(a, e) {
            let s = &self.fgs[g].slices[i];
            let base: Vec<&Row> = s.rows.iter().filter(|r| inw(&r.commit)).collect();
            let logs: Vec<&Row> = ls.iter().flat_map(|l| &s.logs[*l].blocks).filter(|b| !b.dead && inw(&b.instant)).flat_map(|b| &b.rows).collect();
            out.extend(self.rows_of(&base, &logs));
        }
        out.sort();
        out
    }
    pub fn open(&self, cx: &Ctx) -> Result<hudi_core::table::Table, String> {
        let u = self.dir.uri();
        guard(|| cx.rt.block_on(hudi_core::table::Table::new(&u)).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(format!("panic: {p}")))
    }
}
pub type Plan = BTreeMap<(String, String), (String, BTreeSet<String>)>;
pub fn plan_of(s: &[FileSlice]) -> Vec<((String, String), (String, BTreeSet<String>))> {
    let mut v: Vec<_> = s.iter().map(|s| ((s.partition_path.clone(), s.file_id().to_string()), (s.base_file.file_name(), s.log_files.iter().map(|l| l.file_name()).collect()))).collect();
    v.sort();
    v
}
pub fn parquet_bytes(bs: &[RecordBatch], schema: Arc<Schema>) -> Vec<u8> {
    let mut out = vec![];
    let props = parquet::file::properties::WriterProperties::builder().set_max_row_group_size(7).build();
    let mut w = parquet::arrow::ArrowWriter::try_new(&mut out, schema, Some(props)).unwrap();
    for b in bs { w.write(b).unwrap(); }
    w.close().unwrap();
    out
}
pub fn avro_block_content(recs: &[Vec<u8>]) -> Vec<u8> {
    let mut c = vec![];
    c.extend(3u32.to_be_bytes());
    c.extend((recs.len() as u32).to_be_bytes());
    for d in recs { c.extend((d.len() as u32).to_be_bytes()); c.extend(d); }
    c
}
pub fn meta_bytes(h: &[(u32, String)]) -> Vec<u8> {
    let mut o = (h.len() as u32).to_be_bytes().to_vec();
    for (k, v) in h { o.extend(k.to_be_bytes()); o.extend((v.len() as u32).to_be_bytes()); o.extend(v.as_bytes()); }
    o
}
pub fn block(ty: u32, header: &[(u32, String)], content: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    b.extend(1u32.to_be_bytes());
    b.extend(ty.to_be_bytes());
    b.extend(meta_bytes(header));
    b.extend((content.len() as u64).to_be_bytes());
    b.extend(content);
    b.extend(meta_bytes(&[]));
    let n = b.len() as u64 + 8; // everything after the block length field
    let mut o = b"#HUDI#".to_vec();
    o.extend(n.to_be_bytes());
    o.extend(&b);
    o.extend((n + 6 + 8 - 8).to_be_bytes());
    o
}
pub fn rows_from(bs: &[RecordBatch], meta: bool) -> Vec<Row> {
    let mut out = vec![];
    for b in bs {
        let s = |n: &str, i: usize| b.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<StringArray>().map(|a| if a.is_null(i) { "<null>".into() } else { a.value(i).to_string() })).unwrap_or_else(|| "<none>".into());
        for i in 0..b.num_rows() {
            let ts = b.column_by_name("ts").and_then(|c| c.as_any().downcast_ref::<Int64Array>().map(|a| a.value(i))).unwrap_or(-777);
            let val = b.column_by_name("val").and_then(|c| c.as_any().downcast_ref::<Int32Array>().map(|a| a.value(i))).unwrap_or(-777);
            let (key, commit, seq) = if meta { (s("id", i), s("_hoodie_commit_time", i), s("_hoodie_commit_seqno", i)) } else { (s("id", i), String::new(), String::new()) };
            if meta && s("_hoodie_record_key", i) != key { out.push(Row { key: format!("key column {} beside {}", s("_hoodie_record_key", i), key), ts, val, commit, seq }); continue; }
            out.push(Row { key, ts, val, commit, seq });
        }
    }
    out.sort();
    out
}

// ------------------------------------------------------------------ histories
pub fn stamp(n: u64, seconds: bool) -> String {
    // n milliseconds after 2024-02-27T23:50
    let t = chrono::NaiveDate::from_ymd_opt(2024, 2, 27).unwrap().and_hms_opt(23, 50, 0).unwrap() + chrono::Duration::milliseconds(n as i64);
    if seconds { t.format("%Y%m%d%H%M%S").to_string() } else { t.format("%Y%m%d%H%M%S%3f").to_string() }
}
pub struct Gen { pub max_insts: usize, pub allow_empty: bool, pub rows: usize }
pub fn history(r: &mut Rng, tag: &str, g: &Gen) -> Tbl {
    let mut t = Tbl::new(tag);
    t.mor = r.chance(1, 2);
    t.hive = r.chance(1, 2);
    t.seconds = r.chance(1, 4);
    t.precombine = r.chance(4, 5);
    match r.below(4) {
        0 => { t.fields = vec![]; t.schema_order = vec![]; t.parts = vec![vec![]]; t.hive = false; }
        1 => { t.fields = vec![("yr".into(), Ty::Int), ("city".into(), Ty::Str)]; t.schema_order = if r.chance(1, 2) { vec![1, 0] } else { vec![0, 1] };
               t.parts = vec![vec!["2024".into(), "a".into()], vec!["2024".into(), "b".into()], vec!["2025".into(), "a".into()]]; }
        _ => { t.parts = (0..r.range(1, 4)).map(|i| vec![["a", "b", "ab", "x y"][i].to_string()]).collect(); }
    }
    t.write_props();
    let n = r.range(1, g.max_insts);
    let mut clock = 0u64;
    let nfg = std::cell::Cell::new(0);
    let mut live_keys: Vec<(usize, Vec<Row>)> = vec![]; // fg -> current rows
    for i in 0..n {
        clock += if t.seconds { 1000 * [1, 59, 3600, 86400][r.below(4)] } else { [1, 999, 60_000, 3_600_000, 86_400_000][r.below(5)] };
        let ts = stamp(clock, t.seconds);
        let live: Vec<usize> = (0..t.fgs.len()).filter(|&f| t.fgs[f].replaced.is_none()).collect();
        let op = if i == 0 || live.is_empty() { 0 } else { r.below(10) };
        let mut inst = Inst { ts: ts.clone(), action: if t.mor { "deltacommit" } else { "commit" }, completed: true, writes: vec![], replaces: vec![] };
        let seqs = std::cell::Cell::new(0);
        let fresh = |r: &mut Rng, key: String| { seqs.set(seqs.get() + 1); Row { key, ts: r.below(5) as i64, val: r.next() as i32, commit: ts.clone(), seq: format!("{ts}_0_{:05}", seqs.get()) } };
        if i > 0 && r.chance(1, 8) { // a pending instant that has written nothing yet
            inst.completed = false;
            t.trace.push(format!("{ts} {} pending", inst.action));
            t.insts.push(inst); let k = t.insts.len() - 1; t.write_instant(k, r);
            continue;
        }
        let new_fg = |t: &mut Tbl, r: &mut Rng, inst: &mut Inst, live_keys: &mut Vec<(usize, Vec<Row>)>, part: usize, rows: Vec<Row>| {
            let id = format!("f{}{}-0", ["", "0", "9"][r.below(3)], nfg.get()); nfg.set(nfg.get() + 1);
            // the same file id may occur in several partitions
            let other = t.fgs.iter().map(|f| f.id.clone()).find(|x| !t.fgs.iter().any(|f| f.part == part && f.id == *x));
            let id = match other { Some(x) if r.chance(1, 3) => x, _ => id };
            let base = format!("{id}_0-{i}-{}_{}.parquet", r.below(20), inst.ts);
            t.put(part, &base, &t.parquet(&rows, part, &base));
            t.trace.push(format!("{} new {} rows {}", inst.ts, t.rel(part, &base), rows.len()));
            live_keys.push((t.fgs.len(), rows.clone()));
            inst.writes.push(Write { fg: t.fgs.len(), slice: 0, log: None, from: 0 });
            t.fgs.push(Fg { part, id, slices: vec![Slice { commit: inst.ts.clone(), base, rows, logs: vec![] }], replaced: None });
        };
        match op {
            0..=2 => for _ in 0..r.range(1, 3) {
                let p = r.below(t.parts.len());
                let rows: Vec<Row> = (0..r.range(1, g.rows)).map(|k| { let key = format!("k{}-{k}", nfg.get()); fresh(r, key) }).collect();
                new_fg(&mut t, r, &mut inst, &mut live_keys, p, rows);
            },
            3..=6 => { // updates
                let mut fs = live.clone(); r.shuffle(&mut fs); fs.truncate(r.range(1, 3));
                let compact = t.mor && r.chance(1, 4);
                if compact { inst.action = "commit"; }
                for f in fs {
                    let cur = live_keys.iter().find(|x| x.0 == f).unwrap().1.clone();
                    let part = t.fgs[f].part;
                    let si = t.fgs[f].slices.len() - 1;
                    if t.mor && !compact {
                        for _ in 0..r.range(1, 2) {
                            let mut rows: Vec<Row> = cur.iter().filter(|_| r.chance(1, 2)).map(|x| x.key.clone()).collect::<Vec<_>>().into_iter().map(|k| fresh(r, k)).collect();
                            if rows.is_empty() { rows.push(fresh(r, cur[0].key.clone())); }
                            let s = &mut t.fgs[f].slices[si];
                            let v = s.logs.last().map(|l| l.version + 1).unwrap_or(1);
                            let id = t.fgs[f].id.clone();
                            let s = &mut t.fgs[f].slices[si];
                            let l = Log { name: format!(".{id}_{}.log.{v}_0-{i}-{}", s.commit, [1, 2, 10][r.below(3)]), version: v, instant: ts.clone(), blocks: vec![Blk { instant: ts.clone(), rows: rows.clone(), avro: r.chance(1, 2), dead: false }] };
                            s.logs.push(l.clone());
                            let li = s.logs.len() - 1;
                            t.put(part, &l.name, &t.log_bytes(&l, part));
                            t.trace.push(format!("{ts} log {} rows {}", t.rel(part, &l.name), rows.len()));
                            let from = if r.chance(1, 2) { 0 } else { li };
                            inst.writes.push(Write { fg: f, slice: si, log: Some(li), from });
                        }
                    } else {
                        let mut rows = cur.clone();
                        if !compact { for x in rows.iter_mut() { if r.chance(1, 2) { *x = fresh(r, x.key.clone()); } } let k = format!("k{f}-n{i}"); rows.push(fresh(r, k)); }
                        let base = format!("{}_0-{i}-{}_{ts}.parquet", t.fgs[f].id, r.below(20));
                        t.put(part, &base, &t.parquet(&rows, part, &base));
                        t.trace.push(format!("{ts} base {} rows {}", t.rel(part, &base), rows.len()));
                        t.fgs[f].slices.push(Slice { commit: ts.clone(), base, rows: rows.clone(), logs: vec![] });
                        inst.writes.push(Write { fg: f, slice: si + 1, log: None, from: 0 });
                        live_keys.iter_mut().find(|x| x.0 == f).unwrap().1 = rows;
                    }
                }
            }
            _ => { // replace
                inst.action = "replacecommit";
                let mut fs = live.clone(); r.shuffle(&mut fs); fs.truncate(r.range(1, 3));
                for &f in &fs { t.fgs[f].replaced = Some(ts.clone()); inst.replaces.push(f); t.trace.push(format!("{ts} replaces {} in {:?}", t.fgs[f].id, t.part_path(t.fgs[f].part))); }
                if !(g.allow_empty && r.chance(1, 4)) {
                    for _ in 0..r.range(1, 2) {
                        let p = t.fgs[fs[0]].part;
                        let rows: Vec<Row> = (0..r.range(1, g.rows)).map(|k| { let key = format!("r{}-{k}", nfg.get()); fresh(r, key) }).collect();
                        new_fg(&mut t, r, &mut inst, &mut live_keys, p, rows);
                    }
                }
            }
        }
        t.insts.push(inst);
        let k = t.insts.len() - 1;
        t.write_instant(k, r);
    }
    t
}
/// the instants' times, and times just before and after them
pub fn times_around(t: &Tbl) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let parse = |s: &str| chrono::NaiveDateTime::parse_from_str(&s[..14], "%Y%m%d%H%M%S").unwrap() + chrono::Duration::milliseconds(if s.len() == 17 { s[14..].parse().unwrap() } else { 0 });
    for i in &t.insts {
        let p = parse(&i.ts);
        let d = if t.seconds { chrono::Duration::seconds(1) } else { chrono::Duration::milliseconds(1) };
        for q in [p - d, p, p + d] { v.push(if t.seconds { q.format("%Y%m%d%H%M%S").to_string() } else { q.format("%Y%m%d%H%M%S%3f").to_string() }); }
    }
    v.sort(); v.dedup();
    v
}
