//! C19 Avro records become Arrow rows.
use crate::rt::*;
use apache_avro::{types::Value as Av, Schema};
use arrow_array::cast::AsArray;
use arrow_array::{types::*, Array};
use arrow_schema::{DataType, Field, TimeUnit};
use hudi_core::verif_hooks::arrow_array_reader::AvroArrowArrayReader;
use hudi_core::verif_hooks::to_arrow_schema;
use serde_json::{json, Value as J};

#[derive(Clone, Debug)]
enum T { Null, Bool, Int, Long, Float, Double, Bytes, Str, Enum(usize), Fixed(usize), Date, TimeMs, TimeUs, Ts(usize), Lts(usize), Uuid,
    Rec(Vec<(String, T)>), List(Box<T>), Opt(Box<T>, bool),
    Decimal(bool), Map(Box<T>), Multi(Vec<T>), Duration, BigDecimal, Again }
/// what a row holds in a column, whatever the representation
#[derive(Clone, Debug, PartialEq)]
enum Cell { Null, Bool(bool), Int(i64), Float(u32), Double(u64), Bytes(Vec<u8>), Str(String), List(Vec<Cell>), Rec(Vec<Cell>) }

/// the names given to types, so that each occurs once
struct Names(usize);
impl Names { fn next(&mut self) -> String { self.0 += 1; format!("N{}", self.0) } }
fn schema(t: &T, n: &mut Names) -> J {
    let units = ["millis", "micros", "nanos"];
    match t {
        T::Null => json!("null"), T::Bool => json!("boolean"), T::Int => json!("int"), T::Long => json!("long"), T::Float => json!("float"), T::Double => json!("double"),
        T::Bytes => json!("bytes"), T::Str => json!("string"),
        T::Enum(k) => json!({"type": "enum", "name": n.next(), "symbols": (0..*k).map(|i| format!("S{i}")).collect::<Vec<_>>()}),
        T::Fixed(k) => json!({"type": "fixed", "name": n.next(), "size": k}),
        T::Date => json!({"type": "int", "logicalType": "date"}), T::TimeMs => json!({"type": "int", "logicalType": "time-millis"}), T::TimeUs => json!({"type": "long", "logicalType": "time-micros"}),
        T::Ts(u) => json!({"type": "long", "logicalType": format!("timestamp-{}", units[*u])}), T::Lts(u) => json!({"type": "long", "logicalType": format!("local-timestamp-{}", units[*u])}),
        T::Uuid => json!({"type": "string", "logicalType": "uuid"}),
        T::Rec(f) => { let name = n.next(); json!({"type": "record", "name": name, "fields": f.iter().map(|(k, t)| json!({"name": k, "type": schema(t, n)})).collect::<Vec<_>>()}) }
        T::List(t) => json!({"type": "array", "items": schema(t, n)}),
        T::Opt(t, first) => { let s = schema(t, n); if *first { json!(["null", s]) } else { json!([s, "null"]) } }
        T::Decimal(fixed) => if *fixed { json!({"type": {"type": "fixed", "name": n.next(), "size": 8}, "logicalType": "decimal", "precision": 10, "scale": 2}) } else { json!({"type": "bytes", "logicalType": "decimal", "precision": 10, "scale": 2}) },
        T::Map(t) => json!({"type": "map", "values": schema(t, n)}),
        T::Multi(ts) => J::Array(ts.iter().map(|t| schema(t, n)).collect()),
        T::Duration => json!({"type": {"type": "fixed", "name": n.next(), "size": 12}, "logicalType": "duration"}),
        T::BigDecimal => json!({"type": "bytes", "logicalType": "big-decimal"}),
        T::Again => json!("R0"),
    }
}
/// the arrow type of a supported type, none of any other
fn arrow(t: &T) -> Option<DataType> {
    let unit = |u: &usize| [TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond][*u];
    Some(match t {
        T::Null => DataType::Null, T::Bool => DataType::Boolean, T::Int => DataType::Int32, T::Long => DataType::Int64, T::Float => DataType::Float32, T::Double => DataType::Float64,
        T::Bytes => DataType::Binary, T::Str | T::Enum(_) => DataType::Utf8, T::Fixed(n) => DataType::FixedSizeBinary(*n as i32), T::Date => DataType::Date32,
        T::TimeMs => DataType::Time32(TimeUnit::Millisecond), T::TimeUs => DataType::Time64(TimeUnit::Microsecond), T::Ts(u) | T::Lts(u) => DataType::Timestamp(unit(u), None),
        T::Uuid => DataType::FixedSizeBinary(16),
        T::Rec(f) => DataType::Struct(f.iter().map(|(k, t)| field(k, t)).collect::<Option<Vec<_>>>()?.into()),
        T::List(e) => { if !listable(e) { return None; } DataType::List(field("element", e)?.into()) }
        T::Opt(t, _) => arrow(t)?,
        _ => return None,
    })
}
fn listable(t: &T) -> bool { match t { T::Opt(t, _) => listable(t), T::Bool | T::Int | T::Long | T::Float | T::Double | T::Str | T::Enum(_) | T::Rec(_) | T::List(_) | T::Null => true, _ => false } }
fn field(k: &str, t: &T) -> Option<Field> { Some(Field::new(k, arrow(t)?, matches!(t, T::Opt(..)))) }

fn leaf(r: &mut Rng) -> T { match r.below(19) { 0 => T::Null, 1 => T::Bool, 2 => T::Int, 3 => T::Long, 4 => T::Float, 5 => T::Double, 6 => T::Bytes, 7 | 8 => T::Str, 9 => T::Enum(r.range(1, 4)), 10 => T::Fixed([1, 4, 16, 17][r.below(4)]), 11 => T::Date, 12 => T::TimeMs, 13 => T::TimeUs, 14 | 15 => T::Ts(r.below(2)), 16 => T::Lts(r.below(2)), 17 => T::Uuid, _ => T::Long } }
fn odd(r: &mut Rng) -> T { match r.below(7) { 0 | 1 => T::Decimal(r.chance(1, 2)), 2 => T::Map(Box::new(leaf(r))), 3 => T::Multi(vec![T::Int, T::Str, T::Bool]), 4 => T::Duration, 5 => T::BigDecimal, _ => T::Again } }
fn any(r: &mut Rng, depth: usize, odds: usize) -> T {
    if odds > 0 && r.chance(1, odds) { let t = odd(r); return if matches!(t, T::Multi(_)) || r.chance(1, 2) { t } else { T::Opt(Box::new(t), true) }; }
    let t = if depth == 0 || r.chance(1, 2) { leaf(r) } else if r.chance(1, 2) { T::List(Box::new(any(r, depth - 1, odds))) } else { T::Rec(fields(r, depth - 1, odds, 3)) };
    let plain = matches!(t, T::Null);
    if !plain && r.chance(1, 2) { T::Opt(Box::new(t), r.chance(3, 4)) } else { t }
}
fn fields(r: &mut Rng, depth: usize, odds: usize, max: usize) -> Vec<(String, T)> {
    let mut names = ["a", "b", "element", "c", "null", "value", "aa", "B"];
    r.shuffle(&mut names);
    (0..r.range(1, max)).map(|i| (names[i].to_string(), any(r, depth, odds))).collect()
}
fn text(r: &mut Rng) -> String { r.string(&['a', 'B', 'é', '\u{1F600}', ' ', '.', '0', '\n'], 5) }
fn int(r: &mut Rng) -> i64 { match r.below(5) { 0 => 0, 1 => -1, 2 => [i64::MAX, i64::MIN, i32::MAX as i64 + 1, u32::MAX as i64, 1 << 53][r.below(5)], _ => r.below(100_000) as i64 - 500 } }
/// a value of a supported or unsupported type, and what its row should hold
fn value(t: &T, r: &mut Rng, depth: usize) -> (Av, Cell) {
    let n = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 1, _ => r.below(5) };
    match t {
        T::Null => (Av::Null, Cell::Null),
        T::Bool => { let b = r.chance(1, 2); (Av::Boolean(b), Cell::Bool(b)) }
        T::Int => { let i = int(r) as i32; (Av::Int(i), Cell::Int(i as i64)) }
        T::Long => { let i = int(r); (Av::Long(i), Cell::Int(i)) }
        T::Float => { let f = [0.0f32, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 0.1][r.below(7)]; (Av::Float(f), Cell::Float(f.to_bits())) }
        T::Double => { let f = [0.0f64, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, f64::NEG_INFINITY, 0.1][r.below(7)]; (Av::Double(f), Cell::Double(f.to_bits())) }
        T::Bytes => { let b: Vec<u8> = (0..n(r)).map(|_| r.below(256) as u8).collect(); (Av::Bytes(b.clone()), Cell::Bytes(b)) }
        T::Str => { let s = text(r); (Av::String(s.clone()), Cell::Str(s)) }
        T::Enum(k) => { let i = r.below(*k); (Av::Enum(i as u32, format!("S{i}")), Cell::Str(format!("S{i}"))) }
        T::Fixed(k) => { let b: Vec<u8> = (0..*k).map(|_| r.below(256) as u8).collect(); (Av::Fixed(*k, b.clone()), Cell::Bytes(b)) }
        T::Date => { let i = int(r) as i32; (Av::Date(i), Cell::Int(i as i64)) }
        T::TimeMs => { let i = r.below(86_400_000) as i32; (Av::TimeMillis(i), Cell::Int(i as i64)) }
        T::TimeUs => { let i = r.below(1_000_000) as i64 * 86_399; (Av::TimeMicros(i), Cell::Int(i)) }
        T::Ts(u) => { let i = int(r); (match u { 0 => Av::TimestampMillis(i), 1 => Av::TimestampMicros(i), _ => Av::TimestampNanos(i) }, Cell::Int(i)) }
        T::Lts(u) => { let i = int(r); (match u { 0 => Av::LocalTimestampMillis(i), 1 => Av::LocalTimestampMicros(i), _ => Av::LocalTimestampNanos(i) }, Cell::Int(i)) }
        T::Uuid => { let b: [u8; 16] = std::array::from_fn(|_| r.below(256) as u8); let h: String = b.iter().map(|x| format!("{x:02x}")).collect(); (Av::String(format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])), Cell::Bytes(b.to_vec())) }
        T::Rec(f) => { let (mut v, mut c) = (vec![], vec![]); for (k, t) in f { let (a, b) = value(t, r, depth); v.push((k.clone(), a)); c.push(b); } (Av::Record(v), Cell::Rec(c)) }
        T::List(e) => { let (mut v, mut c) = (vec![], vec![]); for _ in 0..n(r) { let (a, b) = value(e, r, depth + 1); v.push(a); c.push(b); } (Av::Array(v), Cell::List(c)) }
        T::Opt(t, first) => if r.chance(1, 3) { (Av::Union(!*first as u32, Box::new(Av::Null)), Cell::Null) } else { let (a, c) = value(t, r, depth); (Av::Union(*first as u32, Box::new(a)), c) },
        T::Decimal(fixed) => (Av::Decimal(vec![0u8; if *fixed { 8 } else { 2 }].into()), Cell::Null),
        T::Map(t) => (Av::Map([("k".to_string(), value(t, r, depth).0)].into()), Cell::Null),
        T::Multi(_) => (Av::Union(0, Box::new(Av::Int(1))), Cell::Null),
        T::Duration => (Av::Duration([0u8; 12].into()), Cell::Null),
        T::BigDecimal => (Av::Bytes(vec![2, 2, 0]), Cell::Null),
        T::Again => (Av::Null, Cell::Null),
    }
}
/// what a row of an array holds
fn cell(a: &dyn Array, i: usize) -> Cell {
    if a.is_null(i) || a.data_type() == &DataType::Null { return Cell::Null; }
    let all = |x: &dyn Array| (0..x.len()).map(|i| cell(x, i)).collect::<Vec<_>>();
    match a.data_type() {
        DataType::Boolean => Cell::Bool(a.as_boolean().value(i)),
        DataType::Int32 => Cell::Int(a.as_primitive::<Int32Type>().value(i) as i64),
        DataType::Int64 => Cell::Int(a.as_primitive::<Int64Type>().value(i)),
        DataType::Float32 => Cell::Float(a.as_primitive::<Float32Type>().value(i).to_bits()),
        DataType::Float64 => Cell::Double(a.as_primitive::<Float64Type>().value(i).to_bits()),
        DataType::Date32 => Cell::Int(a.as_primitive::<Date32Type>().value(i) as i64),
        DataType::Time32(TimeUnit::Millisecond) => Cell::Int(a.as_primitive::<Time32MillisecondType>().value(i) as i64),
        DataType::Time64(TimeUnit::Microsecond) => Cell::Int(a.as_primitive::<Time64MicrosecondType>().value(i)),
        DataType::Timestamp(TimeUnit::Millisecond, _) => Cell::Int(a.as_primitive::<TimestampMillisecondType>().value(i)),
        DataType::Timestamp(TimeUnit::Microsecond, _) => Cell::Int(a.as_primitive::<TimestampMicrosecondType>().value(i)),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => Cell::Int(a.as_primitive::<TimestampNanosecondType>().value(i)),
        DataType::Binary => Cell::Bytes(a.as_binary::<i32>().value(i).to_vec()),
        DataType::FixedSizeBinary(_) => Cell::Bytes(a.as_fixed_size_binary().value(i).to_vec()),
        DataType::Utf8 => Cell::Str(a.as_string::<i32>().value(i).to_string()),
        DataType::List(_) => Cell::List(all(&a.as_list::<i32>().value(i))),
        DataType::Struct(_) => Cell::Rec(a.as_struct().columns().iter().map(|c| cell(c, i)).collect()),
        t => Cell::Str(format!("unexpected type {t}")),
    }
}
/// names, types and nullability, without metadata
fn shape(f: &Field) -> String {
    let t = match f.data_type() { DataType::List(e) => format!("List({})", shape(e)), DataType::Struct(fs) => format!("Struct({})", fs.iter().map(|f| shape(f)).collect::<Vec<_>>().join(",")), t => t.to_string() };
    format!("{}:{}{}", f.name(), t, if f.is_nullable() { "?" } else { "" })
}
pub fn c19(cx: &mut Ctx) {
    cx.rule("records of generated schemas (primitives, logical types, enums, fixed, nested records and lists, each nullable or not, up to 4 levels) written as avro and read back in batches of every size, compared cell by cell; schemas with maps, decimals, multi-variant unions, references and unsupported lists must be errors; non-trivial = at least one nested or null cell");
    let mut r = cx.rng(19);
    for round in 0..if cx.thorough { 1_000_000 } else { 40_000 } {
        if cx.done() { return; }
        let odds = if r.chance(1, 5) { 6 } else { 0 };
        let depth = r.below(4);
        let width = if round < 2000 { 2 } else { 5 };
        let mut fs = fields(&mut r, depth, odds, width);
        if r.chance(1, 20) { let i = r.below(fs.len()); fs[i].1 = if r.chance(1, 2) { T::Ts(2) } else { T::Lts(2) }; }
        let root = T::Rec(fs.clone());
        let mut nm = Names(0);
        let mut js = schema(&root, &mut nm);
        js["name"] = json!("R0");
        let Ok(mut s) = apache_avro::Schema::parse_str(&js.to_string()) else { continue };
        // the parser of this version does not know nanosecond types
        if let Schema::Record(rs) = &mut s { for (f, (_, t)) in rs.fields.iter_mut().zip(&fs) { match t { T::Ts(2) => f.schema = Schema::TimestampNanos, T::Lts(2) => f.schema = Schema::LocalTimestampNanos, _ => {} } } }
        let n = match r.below(4) { 0 => 1, 1 => r.below(3), _ => r.below(9) };
        let rows: Vec<(Av, Cell)> = (0..n).map(|_| value(&root, &mut r, 0)).collect();
        let mut vals: Vec<Av> = vec![];
        let mut want: Vec<Cell> = vec![];
        for (v, c) in rows {
            let Ok(d) = apache_avro::to_avro_datum(&s, v) else { continue };
            let Ok(b) = guard(|| apache_avro::from_avro_datum(&s, &mut d.as_slice(), None)) else { continue };
            if let Ok(b) = b { vals.push(b); want.push(c); }
        }
        let size = r.range(1, 9);
        let case = json!({"schema": js, "rows": vals.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>(), "batch size": size});
        let ok: Option<Vec<String>> = fs.iter().map(|(k, t)| field(k, t).map(|f| shape(&f))).collect();
        cx.case(depth > 0 || format!("{want:?}").contains("Null"), round, || case.clone());
        let got = guard(|| -> Result<(Vec<String>, Vec<Cell>), String> {
            let sc = to_arrow_schema(&s).map_err(|e| e.to_string())?;
            let mut rd = AvroArrowArrayReader::try_new(vals.clone().into_iter().map(Ok), &s, None).map_err(|e| e.to_string())?;
            let mut out = vec![];
            while let Some(b) = rd.next_batch(size) {
                let b = b.map_err(|e| e.to_string())?;
                if b.schema().fields() != sc.fields() { return Ok((vec![format!("batch of another schema {}", b.schema())], out)); }
                if b.num_rows() == 0 || b.num_rows() > size { return Ok((vec![format!("batch of {} rows", b.num_rows())], out)); }
                for i in 0..b.num_rows() { out.push(Cell::Rec(b.columns().iter().map(|c| cell(c, i)).collect())); }
            }
            Ok((sc.fields().iter().map(|f| shape(f)).collect(), out))
        });
        match (ok, got) {
            (_, Err(p)) => cx.violation("panic", "reading avro records panicked", json!({"case": case, "panic": p})),
            (Some(_), Ok(Err(e))) => cx.violation("refused", "records of a supported schema are not read", json!({"case": case, "error": e})),
            (Some(sh), Ok(Ok((sc, rows)))) => {
                if sc != sh { cx.violation("schema", "the arrow schema does not correspond to the avro schema", json!({"case": case, "got": sc, "expected": sh})); }
                else if rows != want { let i = (0..want.len()).find(|i| rows.get(*i) != Some(&want[*i])); cx.violation("values", "a row does not hold the record's values", json!({"case": case, "row": i, "got": i.and_then(|i| rows.get(i)).map(|x| format!("{x:?}")), "expected": i.map(|i| format!("{:?}", want[i])), "rows": rows.len()})); }
            }
            (None, Ok(Ok((sc, rows)))) if !vals.is_empty() => cx.violation("unsupported", "an unsupported schema is not an error", json!({"case": case, "schema": sc, "rows": format!("{rows:?}")})),
            (None, _) => {}
        }
    }
}
